//! C13-C15, C19: ways to run the parser, tolerance, independence of neighbours, determinism.
use super::rules;
use super::tree::rep;
use crate::diff::*;
use crate::gen::{Ctx, Gen, Prof};
use crate::gx::*;
use crate::oracle::*;
use crate::rng::Rng;
use crate::run::*;
use crate::sexp;
use crate::tok::*;
use resast::prelude::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn list() -> Vec<(&'static str, super::F)> {
    vec![("C13", c13), ("C14", c14), ("C15", c15)]
}

// ---------------------------------------------------------------- texts of all kinds
pub struct Src {
    pub s: Seeds,
    words: Vec<String>,
}
impl Src {
    pub fn new(root: &str) -> Src {
        let s = seeds(root);
        let mut words = s.pool.clone();
        words.extend(["`t`", "`a${", "}b${", "}c`", "/re/g", "/", "'use strict'", "async", "await", "yield", "let", "static", "get", "set", "of", "import", "export", "super", "// c\n", "/* d */", "/* e\n */"].iter().map(|x| x.to_string()));
        Src { s, words }
    }
    /// (text, module, kind)
    pub fn text(&self, r: &mut Rng) -> (String, bool, &'static str) {
        match r.n(10) {
            0..=2 => {
                let mut g = Gen::new(Rng::new(r.next(), "g", 0), if r.pc(30) { Prof::default() } else { prof_small() });
                let p = g.program();
                let st = style(r);
                (render(&p.toks, r, &st, !p.module).text, p.module, "program")
            }
            3 => {
                let (t, m) = &self.s.texts[r.n(self.s.texts.len())];
                (t.clone(), *m, "seed")
            }
            4 | 5 => {
                let (c, m) = &self.s.cuts[r.n(self.s.cuts.len())];
                let mut c = c.clone();
                for _ in 0..1 + r.n(2) {
                    mutate(r, &mut c, &self.s.pool);
                }
                let t: String = c.iter().map(|x| format!("{} {}", x.0, x.1)).collect();
                if r.pc(40) {
                    let (a, b) = super::neg::WRAPS[r.n(super::neg::WRAPS.len())];
                    (format!("{}\n{}\n{}", a, t, b), *m, "mutated-seed")
                } else {
                    (t, *m, "mutated-seed")
                }
            }
            6 => {
                let mut g = Gen::new(Rng::new(r.next(), "g", 0), prof_small());
                let p = g.program();
                let mut c: Cut = p.toks.iter().map(|k| (" ".to_string(), k.t.clone())).collect();
                mutate(r, &mut c, &self.s.pool);
                (c.iter().map(|x| format!("{}{}", x.0, x.1)).collect(), p.module, "mutated-program")
            }
            7 => {
                let mut t = String::new();
                let mut m = false;
                for _ in 0..2 + r.n(4) {
                    let (x, mm) = &self.s.texts[r.n(self.s.texts.len())];
                    t.push_str(x);
                    t.push_str([";\n", "\n", " // c\n", " /* c */ ;"][r.n(4)]);
                    m = m || *mm;
                }
                (t, m, "joined-seeds")
            }
            8 => (rules::snippet(r), r.pc(15), "rule"),
            _ => {
                let mut t = String::new();
                for _ in 0..1 + r.n(15) {
                    t.push_str(&self.words[r.n(self.words.len())]);
                    t.push_str([" ", " ", "\n"][r.n(3)]);
                }
                (t, r.pc(20), "soup")
            }
        }
    }
}
/// parts, error, and what happened beyond
#[derive(Clone, PartialEq, Debug)]
pub struct Out {
    parts: Vec<String>,
    err: Option<E>,
    /// Program::Mod, when known
    module: Option<bool>,
}
impl Out {
    fn show(&self) -> String {
        let mut s = self.parts.join(" ");
        if let Some(e) = &self.err {
            s.push_str(&format!(" ERROR {} {:?} {}", e.kind, e.pos, e.display));
        }
        s
    }
}
fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| panic_text(&e))
}
fn pull<CH: ressa::CommentHandler>(p: &mut ressa::Parser<CH>, parts: &mut Vec<String>, most: usize) -> Option<E> {
    for _ in 0..most {
        match p.next() {
            None => return None,
            Some(Ok(x)) => parts.push(sexp::part(&x)),
            Some(Err(e)) => return Some(err(&e)),
        }
    }
    None
}
fn all<CH: ressa::CommentHandler>(p: Result<ressa::Parser<CH>, ressa::Error>, limit: usize) -> Out {
    let mut parts = vec![];
    let e = match p {
        Err(e) => Some(err(&e)),
        Ok(mut p) => pull(&mut p, &mut parts, limit),
    };
    Out { parts, err: e, module: None }
}
/// what `parse()` gives: the parts are only known when there is no error
fn whole<CH: ressa::CommentHandler>(p: Result<ressa::Parser<CH>, ressa::Error>) -> Out {
    match p {
        Err(e) => Out { parts: vec![], err: Some(err(&e)), module: None },
        Ok(mut p) => rest(&mut p),
    }
}
fn rest<CH: ressa::CommentHandler>(p: &mut ressa::Parser<CH>) -> Out {
    match p.parse() {
        Err(e) => Out { parts: vec![], err: Some(err(&e)), module: None },
        Ok(x) => {
            let (m, parts) = program(&x);
            Out { parts, err: None, module: Some(m) }
        }
    }
}
struct Quiet(u64);
impl ressa::CommentHandler for Quiet {
    fn handle_comment(&mut self, i: ress::Item) {
        self.0 += i.span.end as u64;
    }
}

// ---------------------------------------------------------------- C13
const WAYS: &[&str] = &[
    "new", "setters", "chain-any-order", "overwritten", "builder-twice", "builder-changed-after", "closure-handler", "own-handler", "parse", "parse-after-some", "some-after-parse", "parse-with-handler", "collect", "two-in-turn", "new-then-parse", "take-and-resume",
];
fn c13(cfg: &Cfg, o: &mut Obs) -> Report {
    let src = Src::new(&cfg.root);
    cases(cfg, o, "ways", cfg.n(150_000, 3_000_000), |o, r, _| {
        let (text, m0, kind) = src.text(r);
        if scan(&text).is_none() {
            o.skipped += 1;
            return Ok(());
        }
        let module = if r.pc(12) { !m0 } else { m0 };
        let tolerant = r.pc(25);
        arm(&text);
        let limit = text.len() + 2;
        let b = |t: &str| {
            let mut b = ressa::Builder::new();
            b.js(t).module(module).tolerant(tolerant);
            b
        };
        let base = guarded(|| all(ressa::Builder::new().module(module).tolerant(tolerant).js(text.as_str()).build(), limit)).map_err(|p| bug(format!("panic: {}", p), &text, "builder, iteration"))?;
        let (other, om, _) = src.text(r);
        let other = if scan(&other).is_none() { "x = 1; y".to_string() } else { other };
        let k = r.n(6);
        let shuffle = r.n(6);
        for (w, way) in WAYS.iter().enumerate() {
            if !r.pc(45) {
                continue;
            }
            let got = guarded(|| match *way {
                "new" => {
                    if module || tolerant {
                        return None;
                    }
                    Some(all(ressa::Parser::new(&text), limit))
                }
                "new-then-parse" => {
                    if module || tolerant {
                        return None;
                    }
                    Some(whole(ressa::Parser::new(&text)))
                }
                "setters" => {
                    let mut b = ressa::Builder::new();
                    for s in [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][shuffle] {
                        match s {
                            0 => b.set_js(text.clone()),
                            1 => b.set_module(module),
                            _ => b.set_tolerant(tolerant),
                        }
                    }
                    Some(all(b.build(), limit))
                }
                "chain-any-order" => {
                    let mut b = ressa::Builder::new();
                    for s in [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][shuffle] {
                        match s {
                            0 => b.js(&*text),
                            1 => b.module(module),
                            _ => b.tolerant(tolerant),
                        };
                    }
                    Some(all(b.build(), limit))
                }
                "overwritten" => {
                    let mut b = ressa::Builder::new();
                    b.js(other.as_str()).module(!module).tolerant(!tolerant);
                    let _ = b.build();
                    b.set_tolerant(tolerant);
                    b.module(module);
                    b.set_js(text.as_str());
                    Some(all(b.build(), limit))
                }
                "builder-twice" => {
                    let b = b(&text);
                    let first = all(b.build(), limit);
                    let second = all(b.build(), limit);
                    Some(if second == base { first } else { second })
                }
                "builder-changed-after" => {
                    let mut b = b(&text);
                    let p = b.build();
                    b.js(other.as_str()).module(!module).tolerant(!tolerant);
                    let _ = all(b.build(), other.len() + 2);
                    Some(all(p, limit))
                }
                "closure-handler" => {
                    let mut n = 0;
                    Some(all(b(&text).with_comment_handler(|_: ress::Item| n += 1), limit))
                }
                "own-handler" => Some(all(b(&text).with_comment_handler(Quiet(0)), limit)),
                "parse" => Some(whole(b(&text).build())),
                "parse-with-handler" => Some(whole(b(&text).with_comment_handler(Quiet(0)))),
                "parse-after-some" => match b(&text).build() {
                    Err(e) => Some(Out { parts: vec![], err: Some(err(&e)), module: None }),
                    Ok(mut p) => {
                        let mut parts = vec![];
                        if let Some(e) = pull(&mut p, &mut parts, k) {
                            return Some(Out { parts, err: Some(e), module: None });
                        }
                        let mut q = rest(&mut p);
                        let n = parts.len();
                        parts.append(&mut q.parts);
                        // the parts of a failed `parse` are lost
                        if q.err.is_some() {
                            parts = base.parts.iter().take(n).cloned().chain(base.parts.iter().skip(n).cloned()).collect();
                        }
                        Some(Out { parts, err: q.err, module: q.module })
                    }
                },
                "some-after-parse" => match b(&text).build() {
                    Err(e) => Some(Out { parts: vec![], err: Some(err(&e)), module: None }),
                    Ok(mut p) => {
                        let mut q = rest(&mut p);
                        // nothing is left, whether it failed or not
                        let mut more = vec![];
                        if pull(&mut p, &mut more, 3).is_some() || !more.is_empty() {
                            more.push("(delivered after the end)".into());
                            q.parts.extend(more);
                            q.err = None;
                        }
                        Some(q)
                    }
                },
                "collect" => match b(&text).build() {
                    Err(e) => Some(Out { parts: vec![], err: Some(err(&e)), module: None }),
                    Ok(p) => Some(match p.collect::<Result<Vec<_>, _>>() {
                        Ok(v) => Out { parts: v.iter().map(sexp::part).collect(), err: None, module: None },
                        Err(e) => Out { parts: vec![], err: Some(err(&e)), module: Some(false) },
                    }),
                },
                "two-in-turn" => {
                    let mut p = match b(&text).build() {
                        Err(e) => return Some(Out { parts: vec![], err: Some(err(&e)), module: None }),
                        Ok(p) => p,
                    };
                    let mut q = ressa::Builder::new().module(om).js(other.as_str()).build().ok();
                    let mut parts = vec![];
                    let mut e = None;
                    let mut n = 0;
                    loop {
                        if let Some(q) = &mut q {
                            let _ = q.next();
                        }
                        n += 1;
                        match p.next() {
                            None => break,
                            Some(Ok(x)) => parts.push(sexp::part(&x)),
                            Some(Err(x)) => {
                                e = Some(err(&x));
                                break;
                            }
                        }
                        if n > limit {
                            break;
                        }
                    }
                    Some(Out { parts, err: e, module: None })
                }
                "take-and-resume" => match b(&text).build() {
                    Err(e) => Some(Out { parts: vec![], err: Some(err(&e)), module: None }),
                    Ok(mut p) => {
                        let mut parts = vec![];
                        let mut e = None;
                        for x in p.by_ref().take(k) {
                            match x {
                                Ok(x) => parts.push(sexp::part(&x)),
                                Err(x) => e = Some(err(&x)),
                            }
                        }
                        // moved to somewhere else in between
                        let mut p = Box::new(p);
                        if let Some(x) = pull(&mut p, &mut parts, limit) {
                            e = Some(x);
                        }
                        Some(Out { parts, err: e, module: None })
                    }
                },
                _ => None,
            })
            .map_err(|p| bug(format!("panic: {}", p), &text, format!("{} module={} tolerant={}", way, module, tolerant)))?;
            let got = match got {
                None => continue,
                Some(g) => g,
            };
            let fully = got.err.is_none() || !matches!(WAYS[w], "parse" | "parse-with-handler" | "some-after-parse" | "collect" | "new-then-parse");
            if got.err != base.err || (fully && got.parts != base.parts) {
                return Err(bug(
                    format!("{} gives something else than a builder and iteration", way),
                    &text,
                    format!("module={} tolerant={}\niteration {}\n{} {}", module, tolerant, base.show(), way, got.show()),
                ));
            }
            if got.err.is_none() && got.module.is_some() && got.module != Some(module) {
                return Err(bug("the kind of program is not the one asked for", &text, format!("{} module={}", way, module)));
            }
            o.feat(&format!("way.{}.{}", way, if base.err.is_some() { "error" } else { "valid" }));
        }
        o.feat(kind);
        o.feat(if base.err.is_some() { "error" } else { "valid" });
        if tolerant {
            o.feat("tolerant");
        }
        o.seen(&text, true);
        Ok(())
    });
    // a single expression, and what stands behind it
    cases(cfg, o, "parse_expression", cfg.n(60_000, 1_200_000), |o, r, _| {
        let mut g = Gen::new(Rng::new(r.next(), "g", 0), prof_small());
        let d = 1 + r.n(4) as u32;
        let ctx = Ctx::script();
        let x = g.expr(&ctx, d, r.n(2) as u8);
        let mut toks = x.t.clone();
        toks.push(p(";"));
        let mut g2 = Gen::new(Rng::new(r.next(), "g", 1), prof_small());
        let mut pr = g2.program_as(false);
        let tail = r.n(3);
        let mut want: Vec<String> = vec!["(empty)".into()];
        if tail > 0 && !pr.parts[0].starts_with("(dir ") {
            toks.append(&mut pr.toks);
            want.append(&mut pr.parts);
        }
        let st = style(r);
        let tx = render(&toks, r, &st, true);
        if !lexes(&tx) {
            o.skipped += 1;
            return Ok(());
        }
        arm(&tx.text);
        let got = guarded(|| {
            let mut p = ressa::Parser::new(&tx.text)?;
            let e = p.parse_expression()?;
            let mut parts = vec![];
            let e2 = pull(&mut p, &mut parts, tx.text.len() + 2);
            Ok::<_, ressa::Error>((sexp::part(&ProgramPart::Stmt(Stmt::Expr(e))), parts, e2))
        })
        .map_err(|p| bug(format!("panic: {}", p), &tx.text, "parse_expression"))?;
        match got {
            Err(e) => return Err(bug(format!("parse_expression rejects a valid expression: {}", e), &tx.text, x.s.clone())),
            Ok((e, parts, e2)) => {
                if e != format!("(expr {})", x.s) {
                    return Err(bug("parse_expression gives another tree", &tx.text, format!("expected {}\ngot      {}", x.s, e)));
                }
                if let Some(e) = e2 {
                    return Err(bug(format!("error behind an expression: {}", e.display), &tx.text, ""));
                }
                if parts != want {
                    return Err(bug("the parts behind an expression are wrong", &tx.text, format!("expected {}\ngot      {}", want.join(" "), parts.join(" "))));
                }
            }
        }
        o.feat("parse_expression");
        o.seen(&tx.text, true);
        Ok(())
    });
    // malformed: the same as the statement that starts with it
    cases(cfg, o, "parse_expression-errors", cfg.n(60_000, 1_000_000), |o, r, _| {
        let (text, _, _) = src.text(r);
        let v = match scan(&text) {
            None => {
                o.skipped += 1;
                return Ok(());
            }
            Some(v) => v,
        };
        let first = match v.iter().find(|t| !t.comment) {
            Some(t) if !t.eof => text[t.start..t.end].to_string(),
            _ => return Ok(()),
        };
        arm(&text);
        let (a, b) = guarded(|| {
            let a = ressa::Parser::new(&text).and_then(|mut p| p.parse_expression()).map(|e| sexp::part(&ProgramPart::Stmt(Stmt::Expr(e)))).map_err(|e| err(&e));
            let b = ressa::Parser::new(&text).map_err(|e| err(&e)).and_then(|mut p| p.next().map(|x| x.map(|x| sexp::part(&x)).map_err(|e| err(&e))).unwrap_or(Ok("(nothing)".into())));
            (a, b)
        })
        .map_err(|p| bug(format!("panic: {}", p), &text, "parse_expression"))?;
        let plain = first.starts_with(|c: char| "([-+!~`0123456789/".contains(c)) || matches!(first.as_str(), "this" | "null" | "true" | "false" | "typeof" | "void" | "delete" | "new");
        if let Ok(x) = &b {
            if x.starts_with("(expr ") && a.as_ref().ok() != Some(x) && plain {
                return Err(bug("parse_expression differs from the expression statement", &text, format!("{}\n{:?}", x, a)));
            }
        }
        if plain {
            if let (Err(x), Err(y)) = (&a, &b) {
                if x != y {
                    return Err(bug("parse_expression fails differently from the expression statement", &text, format!("{:?}\n{:?}", x, y)));
                }
                o.feat("parse_expression.same-error");
            }
            if a.is_err() && b.is_ok() {
                return Err(bug("parse_expression fails where the expression statement does not", &text, format!("{:?}", a)));
            }
            o.feat("parse_expression.compared");
            o.seen(&text, true);
        }
        Ok(())
    });
    let mut must: Vec<String> = WAYS.iter().filter(|w| **w != "new").flat_map(|w| vec![format!("way.{}.valid", w), format!("way.{}.error", w)]).collect();
    must.extend(["program", "mutated-seed", "soup", "tolerant", "parse_expression", "parse_expression.same-error"].iter().map(|x| x.to_string()));
    let must: Vec<&str> = must.iter().map(|x| x.as_str()).collect();
    rep("a case counts when a text was run through several of the ways to use the parser and all of them agreed with a builder and iteration, part for part and in the error; distinct by text", &must, 100_000)
}

// ---------------------------------------------------------------- splicing
/// A text with two places to fill.
#[derive(Clone, Copy)]
pub struct Two(pub &'static str, pub &'static str, pub &'static str);
/// two statements
const STMT2: &[Two] = &[
    Two("", "", ""),
    Two("x; {", "", "} y"),
    Two("function f() {", "", "}"),
    Two("function* f() {", "", "}"),
    Two("async function f() {", "", "}"),
    Two("async function* f() {", "", "}"),
    Two("x = () => {", "", "};"),
    Two("x = async () => {", "", "};"),
    Two("class A { m() {", "", "} }"),
    Two("class A extends B { constructor() {", "", "} }"),
    Two("class A { static async *m() {", "", "} }"),
    Two("x = { get m() {", "", "} };"),
    Two("function f() { 'use strict'; ", "", "}"),
    Two("while (x) {", "", "}"),
    Two("l: for (;;) {", "", "}"),
    Two("switch (x) { case 1: ", "case 2:", "}"),
    Two("switch (x) { case 1: ", "default:", "}"),
    Two("switch (x) { default: ", "", "}"),
    Two("try {", "} catch (e) {", "}"),
    Two("try {", "} finally {", "}"),
    Two("try { } catch {", "} finally {", "}"),
    Two("if (x) {", "} else {", "}"),
    Two("function f() {", "} function g() {", "}"),
    Two("function* f() {", "} async function g() {", "}"),
    Two("async function f() {", "} function g() {", "}"),
    Two("function f() { 'use strict'; ", "} function g() {", "}"),
    Two("function* f() {", "}", ""),
    Two("async function f() {", "}", ""),
    Two("function f() { 'use strict';", "}", ""),
    Two("class A { m() {", "} }", ""),
    Two("class A { m() {", "} *n() {", "} }"),
    Two("class A { async m() {", "} get n() {", "} }"),
    Two("class A extends B { constructor() {", "} static m() {", "} }"),
    Two("x = { async m() {", "}, n() {", "} };"),
    Two("x = { *m() {", "}, a: function () {", "} };"),
    Two("x = { get m() {", "}, set m(v) {", "} };"),
    Two("x = [() => {", "}, async () => {", "}];"),
    Two("f(function () {", "}, function* () {", "});"),
    Two("l: {", "} m: for (;;) {", "}"),
    Two("while (x) {", "}", ""),
    Two("do {", "} while (x); {", "}"),
    Two("for (let a of b) {", "} for (var c in d) {", "}"),
    Two("x = function () {", "} + function () {", "};"),
    Two("x = async () => {", "};", ""),
    Two("x = async a => {", "};", ""),
    Two("x = () => { 'use strict'; ", "};", ""),
    Two("switch (x) { case 1: ", "}", ""),
    Two("function f(a = function* () {", "}) {", "}"),
    Two("class A extends (function () {", "}) { m() {", "} }"),
    Two("class A { [function () {", "}]() {", "} }"),
    Two("x = `${ function () {", "} }${ () => {", "} }`;"),
    Two("with (x) {", "}", ""),
    Two("for (x = function () {", "};;) {", "}"),
];
/// two expressions
const EXPR2: &[Two] = &[
    Two("x = [", ",", "];"),
    Two("f(", ",", ");"),
    Two("x = {p:", ", q:", "};"),
    Two("x = { [", "]: 1, [", "]: 2 };"),
    Two("x = { [", "]() { }, q:", "};"),
    Two("x = `${", "}${", "}`;"),
    Two("x = `a${ (", ") }b${ [", "] }c`;"),
    Two("x = a[", "][", "];"),
    Two("x = a[", "](", ");"),
    Two("x = new a(", ").b(", ");"),
    Two("x = a(", ")(", ");"),
    Two("x = (", ") + (", ");"),
    Two("(", "); (", ");"),
    Two("x = (", ") ? (", ") : z;"),
    Two("x = y ? (", ") : (", ");"),
    Two("var p = (", "), q = (", ");"),
    Two("let p = [", "], [q] = [", "];"),
    Two("function f(p = (", "), q = (", ")) { }"),
    Two("function* f({ p = (", ") }, [q = (", ")]) { }"),
    Two("async function f(p = (", "), ...[q = (", ")]) { }"),
    Two("x = (p = (", "), q = (", ")) => 1;"),
    Two("x = async (p = (", "), q = (", ")) => 1;"),
    Two("x = { m(p = (", "), q = (", ")) { } };"),
    Two("class A { [", "]() { } static [", "]() { } }"),
    Two("class A extends (", ") { [", "]() { } }"),
    Two("class A { m(p = (", ")) { } n(q = (", ")) { } }"),
    Two("switch (", ") { case (", "): }"),
    Two("switch (x) { case (", "): case (", "): }"),
    Two("if (", ") (", ");"),
    Two("while (", ") (", ");"),
    Two("do (", "); while (", ")"),
    Two("for ((", "); (", "); ) ;"),
    Two("for (var p = (", "); (", "); ) ;"),
    Two("for (let p of (", ")) (", ");"),
    Two("for (var p in (", ")) (", ");"),
    Two("for (p[", "] of (", ")) ;"),
    Two("[p = (", "), q = (", ")] = x;"),
    Two("({ p = (", "), q: r = (", ") } = x);"),
    Two("({ [", "]: p, [", "]: q } = x);"),
    Two("let { [", "]: p, q = (", ") } = x;"),
    Two("x = [(", ") => 1, ", "];"),
    Two("x = [...[", "], ...[", "]];"),
    Two("x = y[", ",", "];"),
    Two("x = () => (", "), y = (", ");"),
    Two("x = async () => (", "), y = (", ");"),
    Two("throw (", "), (", ");"),
    Two("import(", "); import(", ");"),
    Two("x = (", ")`a${", "}b`;"),
    Two("l: (", "); m: (", ");"),
    Two("with (", ") (", ");"),
    Two("x = (", "); function* g() { y = (", "); }"),
    Two("function* g() { y = (", "); } x = (", ");"),
    Two("async function g() { y = (", "); } x = (", ");"),
    Two("x = (", ") ** (", ");"),
    Two("x = -(", "), typeof (", ");"),
    Two("a.b = (", "); c += (", ");"),
    Two("try { (", ") } catch ({ p = (", ") }) { }"),
];
/// the brackets of these tokens match, and nothing is left open
pub fn balanced(text: &str) -> bool {
    let v = match scan(text) {
        Some(v) => v,
        None => return false,
    };
    let mut st: Vec<char> = vec![];
    let mut last = 0;
    for t in v.iter().filter(|t| !t.comment && !t.eof) {
        if t.start < last || t.end > text.len() || !text.is_char_boundary(t.start) || !text.is_char_boundary(t.end) {
            return false;
        }
        last = t.end;
        let s = &text[t.start..t.end];
        if t.template {
            if s.starts_with('}') {
                if st.pop() != Some('$') {
                    return false;
                }
            }
            if s.ends_with("${") {
                st.push('$');
            } else if !s.ends_with('`') {
                return false;
            }
            continue;
        }
        match s {
            "(" | "[" | "{" => st.push(s.chars().next().unwrap()),
            ")" | "]" | "}" => {
                let want = match s {
                    ")" => '(',
                    "]" => '[',
                    _ => '{',
                };
                if st.pop() != Some(want) {
                    return false;
                }
            }
            _ => {}
        }
    }
    st.is_empty()
}
/// The tokenizer (another crate) reads the text, and does not take a regular expression at the
/// start of a substitution for a division, as it may.
pub fn read(text: &str) -> bool {
    let v = match scan(text) {
        Some(v) => v,
        None => return false,
    };
    let v: Vec<_> = v.iter().filter(|t| !t.comment && !t.eof).collect();
    !v.windows(2).any(|w| w[0].template && text.get(w[0].start..w[0].end).map_or(true, |x| x.ends_with("${")) && text.get(w[1].start..w[1].end).map_or(true, |x| x == "/" || x == "/="))
}
struct Filled {
    text: String,
    /// end of the first piece, start of the second
    a_end: usize,
}
fn fill2(t: &Two, a: &str, b: &str) -> Filled {
    let mut s = String::from(t.0);
    s.push_str(a);
    let a_end = s.len();
    s.push_str(t.1);
    s.push_str(b);
    s.push_str(t.2);
    Filled { text: s, a_end }
}
/// The two pieces, alone next to a plain neighbour and together.
fn splice(o: &mut Obs, t: &Two, stmts: bool, a: &str, b: &str, module: bool, tolerant: bool, label: &str) -> Result<(), Bug> {
    #[allow(non_snake_case)]
    let (M1, M2) = if stmts { ("(expr (id zz1))", "(expr (id zz2))") } else { ("(id zz1)", "(id zz2)") };
    let piece = |x: &str| if stmts { format!("\n;{}\n;;\n", x) } else { format!("\n{}\n", x) };
    let (m1, m2) = if stmts { (piece("zz1"), piece("zz2")) } else { (piece("zz1"), piece("zz2")) };
    let (a, b) = (piece(a), piece(b));
    if !balanced(&a) || scan(&b).is_none() {
        o.skipped += 1;
        return Ok(());
    }
    if stmts {
        // nothing runs into the end of the piece
        let v = scan(&a).unwrap_or_default();
        let n = a.len();
        let ends: Vec<usize> = v.iter().filter(|t| !t.comment && !t.eof).map(|t| t.end).rev().take(2).collect();
        if ends != vec![n - 1, n - 2] {
            o.skipped += 1;
            return Ok(());
        }
    }
    // whether this is a comment depends on the whole text in the tokenizer
    if [&a, &b].iter().any(|x| x.contains("<!--") || x.contains("-->")) {
        o.skipped += 1;
        return Ok(());
    }
    if a.contains("__proto__") && b.contains("__proto__") {
        return Ok(());
    }
    let (f0, fa, fb, fab) = (fill2(t, &m1, &m2), fill2(t, &a, &m2), fill2(t, &m1, &b), fill2(t, &a, &b));
    if !read(&fab.text) || !read(&fa.text) || !read(&fb.text) {
        o.skipped += 1;
        return Ok(());
    }
    let run = |x: &str| -> Result<Got, Bug> {
        let g = parse_opt(x, module, tolerant);
        match &g.panic {
            Some(p) => Err(bug(format!("panic: {}", p), x, label)),
            None => Ok(g),
        }
    };
    let (g0, ga, gb, gab) = (run(&f0.text)?, run(&fa.text)?, run(&fb.text)?, run(&fab.text)?);
    if !g0.ok() {
        // the surrounding is not for this kind of program
        return Ok(());
    }
    let (s0, sa, sb, sab) = (g0.parts.concat(), ga.parts.concat(), gb.parts.concat(), gab.parts.concat());
    let (i1, i2) = match (s0.find(M1), s0.find(M2)) {
        (Some(i), Some(j)) if i < j => (i, j),
        _ => return Err(bug("the neighbours are not in the tree", &f0.text, s0)),
    };
    let (pre, mid, post) = (&s0[..i1], &s0[i1 + M1.len()..i2], &s0[i2 + M2.len()..]);
    let fail = |what: &str| Err(bug(what.to_string(), &fab.text, format!("[{} module={} tolerant={}]\nfirst alone:  {}\nsecond alone: {}\ntogether:     {}", label, module, tolerant, ga.show(), gb.show(), gab.show())));
    let at = |f: &Filled, e: &E| e.pos.and_then(|(l, c)| Lines::new(&f.text).offset(l, c));
    let moved = |e: &E| -> Option<E> {
        // the error of the second piece, at the place where it stands behind the first one
        let off = at(&fb, e)?;
        if off < fb.a_end {
            return None;
        }
        let p = Lines::new(&fab.text).at(off - fb.a_end + fab.a_end);
        Some(E { pos: Some(p), display: String::new(), ..e.clone() })
    };
    let bare = |e: &E| E { display: String::new(), ..e.clone() };
    match (&ga.err, &gb.err) {
        (None, None) => {
            let ia = match sa.strip_prefix(pre).and_then(|x| x.strip_suffix(post)).and_then(|x| x.strip_suffix(M2)).and_then(|x| x.strip_suffix(mid)) {
                Some(x) => x,
                None => {
                    o.feat("not comparable");
                    return Ok(());
                }
            };
            let ib = match sb.strip_prefix(pre).and_then(|x| x.strip_prefix(M1)).and_then(|x| x.strip_prefix(mid)).and_then(|x| x.strip_suffix(post)) {
                Some(x) => x,
                None => {
                    o.feat("not comparable");
                    return Ok(());
                }
            };
            if gab.err.is_some() {
                return fail("two pieces that are valid alone fail together");
            }
            if sab != format!("{}{}{}{}{}", pre, ia, mid, ib, post) {
                return fail("a piece has another tree because of its neighbour");
            }
            o.feat("both.valid");
        }
        (Some(e), other) => {
            // the error is in the first piece
            let off = match at(&fa, e) {
                Some(x) if x >= t.0.len() && x < fa.a_end => x,
                _ => {
                    o.feat("not comparable");
                    return Ok(());
                }
            };
            let got = match &gab.err {
                None => return fail("a piece that fails alone is accepted next to another"),
                Some(g) => g,
            };
            if bare(got) == bare(e) {
                if gab.parts != ga.parts {
                    return fail("the parts before an error depend on what follows");
                }
                o.feat(if other.is_some() { "both.error" } else { "first.error" });
            } else if let Some(x) = other {
                // an error that is only found later on gives way to one found before
                match moved(x) {
                    Some(x) if x == bare(got) => o.feat("both.error.second-first"),
                    _ => {
                        let _ = off;
                        return fail("another error than the pieces have alone");
                    }
                }
            } else {
                return fail("another error because of what follows");
            }
        }
        (None, Some(e)) => {
            if e.pos.is_none() {
                if gab.err.as_ref().map(bare) != Some(bare(e)) {
                    return fail("another error because of what stands before");
                }
                o.feat("second.error.end");
            } else {
                let want = match moved(e) {
                    Some(w) => w,
                    None => {
                        o.feat("not comparable");
                        return Ok(());
                    }
                };
                if gab.err.is_none() {
                    return fail("a piece that fails alone is accepted behind another");
                }
                if gab.err.as_ref().map(bare) != Some(want) {
                    return fail("another error, or at another place, because of what stands before");
                }
                // the parts before the error
                if let Some(x) = sb.strip_prefix(pre).and_then(|x| x.strip_prefix(M1)) {
                    if let Some(ia) = sa.strip_prefix(pre).and_then(|x| x.strip_suffix(post)).and_then(|x| x.strip_suffix(M2)).and_then(|x| x.strip_suffix(mid)) {
                        if sab != format!("{}{}{}", pre, ia, x) {
                            return fail("the parts before an error depend on what stands before");
                        }
                    }
                }
                o.feat("second.error");
            }
        }
    }
    o.feat(label);
    if tolerant {
        o.feat("tolerant");
    }
    o.seen(&fab.text, true);
    Ok(())
}

// ---------------------------------------------------------------- C15
/// statements that touch the flags of the parser
const STIR: &[&str] = &[
    "function* g() { yield 1; }", "async function g() { await 1; }", "async function* g() { for await (x of y) yield await x; }", "x = async a => await a;", "x = async (a, b = 1) => { await a };", "x = async(a);", "x = (a, b) => a;", "x = ({ a = 1 }) => a;", "({ a = 1 } = x);", "[a, [b = 1], ...c] = x;", "x = ({ a, b });", "for (var i in x) ;", "for (let i of x) { break; }", "for (x.y in z) continue;", "for (i = 0, j = 1; i < j; i++) ;",
    "for (var a = (1 in x); ; ) break;", "switch (x) { case 1: break; default: }", "l: while (x) { continue l; }", "l: m: { break l; }", "class A { }", "class A extends B { constructor() { super(); } m() { super.m(); } static *n() { yield; } get a() { } set a(v) { } async o() { await x; } }", "function f() { 'use strict'; return this; }", "x = function () { 'use strict'; };", "x = () => { 'use strict'; };", "x = { m() { 'use strict'; }, get a() { return 1 }, set a(v) { }, *g() { yield }, async h() { await x } };",
    "with (x) y;", "if (a) function f() { }", "try { throw x; } catch { } finally { }", "try { } catch ({ a, b: [c] }) { }", "x = `a${ b }c${ `d${ e }` }`;", "x = /re/g;", "x = a / b / c;", "x++\n++y", "var a, { b, c = 1 } = d, [e] = f;", "let let_ = 1;", "const { a: { b } } = c;", "label: function f() { }", "do x; while (y)", "x = new.target_;", "function f() { return new.target; }", "delete x.y, void 0, typeof z;", "import('a');", "x = a ? b : c ? d : e;", "a ** b ** c;", "(a, b);", "x = (a) => { };", "x = function f(a, b = a, ...c) { };",
    "debugger;", "async: x;", "async\nx;", "let\nx;", "yield: x;", "x = { async, await: 1, get, set, static: 2 };", "x = class { static() { } async() { } get() { } };", "'not a directive';", "'use strict';", "eval = 1;", "arguments++;", "x = async () => { for await (x of y) ; };", "x = { __proto__: y };", "x = async function* () { yield* await x; };", "return;", "break;", "continue;", "await x;", "yield x;", "super.x;", "super();", "new.target;",
];
/// pieces that show how what stands before them has left the parser
const PROBE: &[&str] = &[
    "x = y in z;", "x in y;", "for (x in y) ;", "for (var a = y in z; ; ) ;", "for (a = 1, b in c; ; ) ;", "for (var a = (b in c), d = [e in f]; ; ) ;", "yield;", "yield\nx", "x = yield;", "yield /a/g;", "await;", "x = await\ny", "await /a/g", "x = [await]", "x = (yield)", "let\nx", "x = let;", "static = x;", "with (x) y;", "delete x;", "eval = 1;", "arguments = 1;",
    "x = 010;", "x = '\\07';", "function f(a, a) { }", "return;", "return x in y;", "break;", "continue;", "break l;", "continue l;", "l: x;", "m: x;", "l: for (;;) { continue l; }", "super.x;", "super();", "x = new.target;", "x = { a = 1 };", "[a = 1];", "[a] = b;", "({ a } = b);", "1 = 2;", "f() = 1;", "(a = 1) = 2;", "(a) = 1;", "a++;", "++a;", "1++;", "(a, b) => c;", "async (a, b) => c;", "async a => await a;",
    "(a, b = 1, [c], { d }) => e;", "a => { };", "() => { 'use strict'; with (x) y; };", "(a = 1) => { 'use strict'; };", "({ a: 1 }) => b;", "(a.b) => c;", "((a)) => b;", "'use strict'; with (x) y;", "import('a');", "import a from 'b';", "export default x;", "function f() { return yield; }", "function* g() { yield\nx }", "function* g(a = yield) { }", "async function h() { await\nx }", "async function h(a = await x) { }", "class A { constructor() { super(); } }", "class A extends B { constructor() { super(); } }",
    "class A { yield() { } }", "x = { yield: 1, await }", "x = { await() { } }", "if (a) function f() { }", "l: function f() { }", "if (a) let\nb", "do x; while (y) z", "x\n++y", "x = a ? b in c : d in e;", "for (let of of of) ;", "for (let in a) ;", "for (async of b) ;", "async\nfunction f() { }", "new new a()();", "`a${ b in c }`", "a ? (b, c) : d => e", "x = a ** b;", "-a ** b;", "const a;", "let [a];", "var { a };",
];
pub fn stmt_piece(src: &Src, r: &mut Rng, module: bool) -> String {
    match r.n(12) {
        0..=2 => STIR[r.n(STIR.len())].to_string(),
        3 => format!("{} {}", STIR[r.n(STIR.len())], STIR[r.n(STIR.len())]),
        4 => rules::snippet(r),
        5 => rules::strict_sensitive(r).to_string(),
        6 | 7 => {
            let mut g = Gen::new(Rng::new(r.next(), "g", 0), prof_small());
            let p = g.program_as(module);
            let dirs = p.parts.iter().take_while(|x| x.starts_with("(dir ")).count();
            let st = style(r);
            render(&p.toks[p.bounds[dirs.min(p.bounds.len() - 1)]..], r, &st, !module).text
        }
        8 => src.s.texts[r.n(src.s.texts.len())].0.clone(),
        9 => {
            // a piece that is cut off or damaged
            let (c, _) = &src.s.cuts[r.n(src.s.cuts.len())];
            let mut c = c.clone();
            mutate(r, &mut c, &src.s.pool);
            c.iter().map(|x| format!("{} {}", x.0, x.1)).collect()
        }
        10 => {
            let x = STIR[r.n(STIR.len())];
            let c = cut(x).unwrap_or_default();
            let k = 1 + r.n(c.len().max(1));
            c.iter().take(k).map(|x| format!("{}{}", x.0, x.1)).collect()
        }
        _ => {
            let x = STIR[r.n(STIR.len())];
            let (a, b) = super::neg::WRAPS[r.n(super::neg::WRAPS.len())];
            format!("{}\n{}\n{}", a, x, b)
        }
    }
}
pub fn expr_piece(src: &Src, r: &mut Rng) -> String {
    match r.n(8) {
        0..=2 => rules::expression(r),
        3 | 4 => {
            let mut g = Gen::new(Rng::new(r.next(), "g", 0), prof_small());
            let d = 1 + r.n(3) as u32;
            let x = g.assign_expr(&Ctx::script(), d);
            let st = style(r);
            render(&x.t, r, &st, true).text
        }
        5 => {
            let mut g = Gen::new(Rng::new(r.next(), "g", 0), prof_small());
            let x = g.assign_expr(&Ctx::script(), 2);
            let mut c: Cut = x.t.iter().map(|k| (" ".to_string(), k.t.clone())).collect();
            mutate(r, &mut c, &src.s.pool);
            c.iter().map(|x| format!("{}{}", x.0, x.1)).collect()
        }
        6 => format!("({})", rules::expression(r)),
        _ => ["a", "{ a = 1 }", "async (a) => { await a }", "async (a, b)", "(a, b) => 1", "async a => a", "function* () { yield }", "class { m() { super.x } }", "() => { }", "{ m() { 'use strict' } }", "function () { 'use strict'; }", "x in y", "`a${ b }`", "/r/g", "[a, b] = c", "{ a, b } = c", "a = b", "await", "yield", "await x", "yield x", "async x", "a => {", "...a", "a, b", ""][r.n(26)].to_string(),
    }
}
fn c15(cfg: &Cfg, o: &mut Obs) -> Report {
    let src = Src::new(&cfg.root);
    // every surrounding with every pair of the pieces that touch the flags
    let dims = [STIR.len(), STIR.len(), STMT2.len()];
    let n = cfg.n(70_000, rules::total(&dims));
    cases(cfg, o, "stir", n, |o, r, i| {
        let c = rules::cell(i, n, &dims, r);
        splice(o, &STMT2[c[2]], true, STIR[c[0]], STIR[c[1]], false, false, "stir")
    });
    cases(cfg, o, "statements", cfg.n(120_000, 3_000_000), |o, r, _| {
        let module = r.pc(25);
        let t = &STMT2[if r.pc(30) { 0 } else { r.n(STMT2.len()) }];
        let a = stmt_piece(&src, r, module);
        let b = stmt_piece(&src, r, module);
        splice(o, t, true, &a, &b, module, r.pc(15), "statements")
    });
    cases(cfg, o, "probes", cfg.n(100_000, 1_500_000), |o, r, _| {
        let module = r.pc(15);
        let t = &STMT2[if r.pc(25) { 0 } else { r.n(STMT2.len()) }];
        let a = match r.n(4) {
            0 => STIR[r.n(STIR.len())].to_string(),
            1 => format!("{{ {} }}", stmt_piece(&src, r, module)),
            _ => stmt_piece(&src, r, module),
        };
        let b = PROBE[r.n(PROBE.len())];
        if r.pc(20) {
            splice(o, t, true, b, &a, module, r.pc(10), "probes")
        } else {
            splice(o, t, true, &a, b, module, r.pc(10), "probes")
        }
    });
    // what every statement of the language leaves behind, everywhere
    let dims = [STIR.len(), PROBE.len(), STMT2.len()];
    let n = cfg.n(80_000, rules::total(&dims));
    cases(cfg, o, "left-behind", n, |o, r, i| {
        let c = rules::cell(i, n, &dims, r);
        splice(o, &STMT2[c[2]], true, STIR[c[0]], PROBE[c[1]], false, false, "left-behind")
    });
    cases(cfg, o, "expressions", cfg.n(200_000, 4_000_000), |o, r, _| {
        let t = &EXPR2[r.n(EXPR2.len())];
        let a = expr_piece(&src, r);
        let b = expr_piece(&src, r);
        if r.pc(30) {
            // inside of a function or a class
            let (x, y) = rules::CTXS[r.n(rules::CTXS.len())];
            let (pre, post) = (format!("{}\n{}", x, t.0), format!("{}\n{}", t.2, y));
            let l = Two(Box::leak(pre.into_boxed_str()), t.1, Box::leak(post.into_boxed_str()));
            return splice(o, &l, false, &a, &b, r.pc(10), r.pc(10), "expressions-in");
        }
        splice(o, t, false, &a, &b, r.pc(10), r.pc(10), "expressions")
    });
    cases(cfg, o, "rows", cfg.n(20_000, 2_000_000), |o, r, _| super::rows::rows(o, &src, r));
    rep(
        "a case counts when two pieces of code, valid or not, were run through the parser next to a plain neighbour and next to each other, at two places of the same surrounding, and together gave exactly the trees or the first error that they give alone; distinct by text",
        &["both.valid", "first.error", "second.error", "both.error", "stir", "statements", "probes", "left-behind", "expressions", "expressions-in", "tolerant", "rows.valid", "rows.error", "rows.long", "rows.Stmt", "rows.Expr", "rows.Object", "rows.Class", "rows.Param", "rows.Element", "rows.Prop", "rows.TargetElement", "rows.TargetProp", "rows.Decl", "rows.Case", "rows.Import", "rows.Export", "rows.Item"],
        150_000,
    )
}

// ---------------------------------------------------------------- C14
/// errors that tolerance is for
fn soft(e: &E) -> bool {
    matches!(e.kind, "NonStrict" | "InvalidGetterParams" | "InvalidSetterParams")
        || [
            "Not at assignment target",
            "Cannot increment when not at assignment target",
            "restricted",
            "Cannot delete ident",
            "unknown label",
            "not the label of a loop",
            "outside of a loop or switch",
            "a declaration is not allowed here",
            "Modules do not allow 'await'",
            "prototype can only be declared once",
            "not eval",
            "not arguments",
        ]
        .iter()
        .any(|m| e.msg.contains(m))
}
/// errors of form that tolerance may pass over
fn passes(e: &E) -> bool {
    e.msg.contains("Expected `)`") || e.msg.contains("Expected `Comma`") || e.msg.contains("Expected `,`")
}
/// statements that are mistakes in strict code only, all of them of the forgiven kind
const STRICT_ONLY: &[&str] = &[
    "with (a) b;", "with (a.b) { c; d }", "with (a) with (b) c;", "delete a;", "x = delete a;", "delete (a);", "typeof delete a;", "eval = 1;", "x = eval = 1;", "arguments = 1;", "eval += 1;", "arguments **= 2;", "eval++;", "++eval;", "--arguments;", "x = arguments--;", "[eval] = a;", "[a, arguments] = b;", "[...eval] = a;", "[eval = 1] = a;", "[[eval]] = a;", "({ eval } = a);", "({ a: eval } = b);", "({ a: [arguments] } = b);", "({ ...eval } = a);", "({ a: eval = 1 } = b);", "({ eval = 1 } = b);",
    "for (eval of a) b;", "for (arguments in a) b;", "for ([eval] of a) b;", "for ({ a: eval } in b) c;", "var eval;", "var arguments = 1;", "let eval = 1;", "const arguments = 1;", "var [eval] = a;", "let { arguments } = a;", "let { a: eval } = b;", "const { ...eval } = a;", "var a, eval, b;", "for (var eval of a) b;", "for (let arguments in a) b;", "for (const eval of a) b;", "for (var eval = 1; a; ) b;", "try { } catch (eval) { }", "try { } catch ([arguments]) { }", "try { } catch ({ a: eval }) { }",
    "function eval() { }", "function* arguments() { }", "async function eval() { }", "x = function eval() { };", "x = function* arguments() { };", "x = async function eval() { };", "function f(eval) { }", "function f(a, arguments) { }", "function f(...eval) { }", "function f([eval]) { }", "function f({ arguments }) { }", "function f(eval = 1) { }", "function* f(eval) { }", "async function f(eval) { }", "x = function (eval) { };", "x = function* (a, eval) { };", "x = async function (eval) { };",
    "x = (eval) => 1;", "x = eval => 1;", "x = arguments => { };", "x = (a, arguments) => { };", "x = async (eval) => 1;", "x = async eval => 1;", "x = ([eval]) => 1;", "x = ({ arguments }) => 1;", "x = (eval = 1) => 1;", "x = (...eval) => 1;", "x = { m(eval) { } };", "x = { *m(eval) { } };", "x = { async m(eval) { } };", "x = { set m(eval) { } };", "x = { set m([arguments]) { } };", "x = { m(a, ...eval) { } };",
    "if (a) function f() { }", "if (a) b; else function f() { }", "if (a) function f() { } else function g() { }", "x = function (eval) { 'use strict'; };", "x = (eval) => { 'use strict'; };", "x = { m(eval) { 'use strict'; } };",
];
/// ways to make the code around a place strict, next to the same without
const STRICT_PAIRS: &[(&str, &str)] = &[
    ("'use strict';%", "'use strixt';%"),
    ("function f() { 'use strict'; % }", "function f() { 'use strixt'; % }"),
    ("x = () => { 'use strict'; % };", "x = () => { 'use strixt'; % };"),
    ("x = async function () { 'use strict'; if (a) { % } };", "x = async function () { 'use strixt'; if (a) { % } };"),
    ("x = { m() { 'use strict'; % } };", "x = { m() { 'use strixt'; % } };"),
    ("x = { get m() { 'use strict'; % } };", "x = { get m() { 'use strixt'; % } };"),
    ("function* f() { 'use strict'; for (;;) { % } }", "function* f() { 'use strixt'; for (;;) { % } }"),
    ("'use strict'; function f() { % }", "'use strixt'; function f() { % }"),
    ("'use strict'; x = a => { b => { % } };", "'use strixt'; x = a => { b => { % } };"),
    ("'use strict'; switch (a) { case b: % default: c }", "'use strixt'; switch (a) { case b: % default: c }"),
    ("'use strict'; l: { try { % } finally { } }", "'use strixt'; l: { try { % } finally { } }"),
];
/// surroundings that are strict by themselves
const STRICT_CTX: &[&str] = &[
    "class A { m() { % } }", "class A { constructor() { % } }", "class A { static *m() { % } }", "class A { get m() { % } }", "class A { set m(v) { % } }", "class A { async m() { % } }", "x = class extends B { m() { x = () => { % }; } };", "class A extends (function () { % }) { }", "class A { [function () { % }]() { } }", "class A { m(p = function () { % }) { } }",
];
const JUMP: &[&str] = &["break;", "continue;", "break l;", "continue l;", "{ break; }", "if (a) continue; else break l;", "if (a) break", "try { continue l } finally { }", "{ a; break l; b }"];
/// no loop, switch or label in reach
const NO_LOOP: &[&str] = &[
    "%", "{ % }", "function f() { % }", "function f() { 'use strict'; % }", "x = () => { % };", "class A { m() { % } }", "class A { static async *m() { % } }", "x = { get m() { % } };", "l: { function f() { % } }", "while (a) { x = function () { % }; }", "l: for (;;) { x = () => { % }; }", "l: while (a) ; %", "switch (a) { case function () { % }: }", "if (a) { % }", "try { % } catch { }", "m: { % }", "l: while (a) { class A { m() { % } } }", "for (a of b) ; %", "do ; while (a); %", "switch (a) { } %", "for (x of () => { % }) ;",
];
/// what can't be assigned to, with no parentheses needed at any of the places
const NO_TARGET: &[&str] = &[
    "f()", "f(a, b)()", "1", "'s'", "this", "null", "true", "`t`", "`a${ b }c`", "(a, b)", "(a + b)", "(a ? b : c)", "(a => b)", "new A()", "new A", "new a.b(c)", "a.b()", "(f())", "(1)", "(-a)", "(a++)", "(typeof a)", "(a, b.c)", "((a + b))", "a`t`", "a.b`c`", "(async () => b)", "(x || y)", "import(a)",
];
const ASSIGNS: &[&str] = &["x = % = y;", "x = % += y;", "x = % >>>= y;", "x = ++%;", "x = --%;", "x = %++;", "x = %--;", "for (% in y) z;", "for (% of y) z;", "x = [% = y];", "f(%++);", "x = { p: % = y };", "x = y ? % = z : w;", "x = -(%++);", "async function g() { for await (% of y) z; }", "x = () => % = y;", "x = `${ % = y }`;", "if (% = y) z;", "x = y = % = z;", "x = (y, % = z);"];
const ASSIGN_IN: &[&str] = &["%", "'use strict'; %", "function f() { % }", "class A { m() { % } }", "x = () => { % };", "{ a; % b }", "l: while (a) { % break l; }", "async function f() { % }", "x = { get m() { % } };", "switch (a) { case b: % }"];
const PARAMS: &[(&str, &str)] = &[("a", "(id a)"), ("a, b", "(id a)(id b)"), ("...a", ""), ("[a]", ""), ("{ a, b: c }", ""), ("a = 1", ""), ("a, ...b", ""), ("a, b, c", ""), ("", ""), ("a,", ""), ("[a], { b } = c", "")];

fn tol(text: &str, module: bool) -> Got {
    parse_opt(text, module, true)
}
/// Forgiven in tolerant mode, with this tree; a mistake otherwise.
fn forgiven(o: &mut Obs, text: &str, module: bool, want: &str, label: &str) -> Result<(), Bug> {
    if scan(text).is_none() {
        o.skipped += 1;
        return Ok(());
    }
    let n = parse(text, module);
    let g = tol(text, module);
    if let Some(p) = n.panic.as_ref().or(g.panic.as_ref()) {
        return Err(bug(format!("panic: {}", p), text, label));
    }
    if n.ok() {
        return Err(bug("a mistake is accepted without tolerance", text, format!("[{}]", label)));
    }
    if let Some(e) = &g.err {
        return Err(bug(format!("not forgiven in tolerant mode: {}", e.display), text, format!("[{}] without tolerance: {}", label, n.show())));
    }
    let got = g.parts.concat();
    if got != want {
        return Err(bug("what tolerant mode forgives has the wrong tree", text, format!("[{}]\nexpected {}\ngot      {}", label, want, got)));
    }
    o.feat(label);
    o.seen(text, true);
    Ok(())
}
/// the tree of the text with the marker statement replaced
fn plug(tpl: &str, stmt_sx: &str, module: bool) -> Result<String, Bug> {
    let t = tpl.replace('%', " zz1; ");
    let g = parse(&t, module);
    let s = g.parts.concat();
    if !g.ok() || s.matches("(expr (id zz1))").count() != 1 {
        return Err(bug("a valid surrounding is rejected or has lost its content", &t, g.show()));
    }
    Ok(s.replace("(expr (id zz1))", stmt_sx))
}
/// the tree of a statement in a surrounding in which it is valid
fn tree_in(tpl: &str, stmt: &str) -> Result<String, Bug> {
    let t = tpl.replace('%', " zz1; ");
    let g = parse(&t, false);
    let s = g.parts.concat();
    let t2 = tpl.replace('%', stmt);
    let g2 = parse(&t2, false);
    let s2 = g2.parts.concat();
    let k = s.find("(expr (id zz1))");
    match k {
        Some(k) if g.ok() && g2.ok() => match s2.strip_prefix(&s[..k]).and_then(|x| x.strip_suffix(&s[k + "(expr (id zz1))".len()..])) {
            Some(x) => Ok(x.to_string()),
            None => Err(bug("a statement changes its surrounding", &t2, s2)),
        },
        _ => Err(bug("a valid program is rejected", &t2, g2.show())),
    }
}
fn c14(cfg: &Cfg, o: &mut Obs) -> Report {
    let src = Src::new(&cfg.root);
    // valid: nothing changes. Not forgivable: the same error. Otherwise: the same start.
    cases(cfg, o, "same", cfg.n(250_000, 5_000_000), |o, r, _| {
        let (text, module, kind) = src.text(r);
        if scan(&text).is_none() {
            o.skipped += 1;
            return Ok(());
        }
        let n = parse(&text, module);
        let g = tol(&text, module);
        if let Some(p) = n.panic.as_ref().or(g.panic.as_ref()) {
            return Err(bug(format!("panic: {}", p), &text, kind));
        }
        let detail = || format!("[{} module={}]\nnormal   {}\ntolerant {}", kind, module, n.show(), g.show());
        match &n.err {
            None => {
                if g.err.is_some() || g.parts != n.parts {
                    return Err(bug("a valid program has another result in tolerant mode", &text, detail()));
                }
                o.feat("valid");
            }
            Some(e) => {
                if !g.parts.starts_with(&n.parts) {
                    return Err(bug("the parts before a mistake differ in tolerant mode", &text, detail()));
                }
                if soft(e) {
                    o.feat(if g.err.is_some() { "forgivable.then-error" } else { "forgivable.accepted" });
                    if g.err.as_ref() == Some(e) {
                        return Err(bug("a mistake of the forgiven kind is an error in tolerant mode", &text, detail()));
                    }
                } else if passes(e) || passes_strict(e, &text) {
                    o.feat("may pass");
                } else if g.err.as_ref() != Some(e) || g.parts != n.parts {
                    return Err(bug("a mistake that is not forgiven ends in another error in tolerant mode", &text, detail()));
                } else {
                    o.feat("same-error");
                }
            }
        }
        o.feat(kind);
        o.seen(&text, true);
        Ok(())
    });
    // code that is wrong because it is strict: the tree that it has where it is not strict
    let d = [STRICT_ONLY.len(), STRICT_PAIRS.len(), 3];
    cases(cfg, o, "strict", rules::total(&d), |o, r, i| {
        let c = rules::cell(i, rules::total(&d), &d, r);
        let s = STRICT_ONLY[c[0]];
        let s = ["%", "a; % b;", "{ % }"][c[2]].replace('%', s);
        let (a, b) = STRICT_PAIRS[c[1]];
        let free = s.replace("use strict", "use strixt");
        let sloppy = parse(&b.replace('%', &free), false);
        if !sloppy.ok() {
            return Err(bug("a valid program is rejected", &b.replace('%', &free), sloppy.show()));
        }
        let want = sloppy.parts.concat().replace("use strixt", "use strict");
        forgiven(o, &a.replace('%', &s), false, &want, "strict")
    });
    let d = [STRICT_ONLY.len(), STRICT_CTX.len() + 1];
    cases(cfg, o, "strict-surroundings", rules::total(&d), |o, r, i| {
        let c = rules::cell(i, rules::total(&d), &d, r);
        let s = STRICT_ONLY[c[0]];
        let sx = tree_in("{ % }", &s.replace("use strict", "use strixt"))?.replace("use strixt", "use strict");
        if c[1] == STRICT_CTX.len() {
            return forgiven(o, s, true, &sx, "module");
        }
        let t = STRICT_CTX[c[1]];
        forgiven(o, &t.replace('%', s), r.pc(10), &plug(t, &sx, false)?, "class")
    });
    let d = [JUMP.len(), NO_LOOP.len(), 2];
    cases(cfg, o, "jumps", rules::total(&d), |o, r, i| {
        let c = rules::cell(i, rules::total(&d), &d, r);
        let sx = tree_in("l: for (;;) { % }", JUMP[c[0]])?;
        let t = NO_LOOP[c[1]];
        let want = plug(t, &sx, c[2] == 1)?;
        forgiven(o, &t.replace('%', JUMP[c[0]]), c[2] == 1, &want, "jump")
    });
    // continue with the label of something that is no loop
    let d = [4, NO_LOOP.len()];
    cases(cfg, o, "labels", rules::total(&d), |o, r, i| {
        let c = rules::cell(i, rules::total(&d), &d, r);
        let j = ["continue k;", "{ continue k }", "if (a) continue k", "a; continue k; b;"][c[0]];
        let sx = tree_in("k: for (;;) { % }", j)?;
        let t = NO_LOOP[c[1]].replace('%', "k: { % }");
        let want = plug(&t, &sx, false)?;
        forgiven(o, &t.replace('%', j), false, &want, "label")
    });
    // getters with parameters, setters with none, many or a rest
    let d = [PARAMS.len(), 2, 8];
    cases(cfg, o, "accessors", rules::total(&d), |o, r, i| {
        let c = rules::cell(i, rules::total(&d), &d, r);
        let (ps, _) = PARAMS[c[0]];
        let set = c[1] == 1;
        let wrong = if set { !matches!(ps, "a" | "[a]" | "{ a, b: c }" | "a = 1" | "a,") } else { ps != "" };
        if !wrong {
            return Ok(());
        }
        let f = parse(&format!("function f({}) {{ zz1; }}", ps), false);
        let fx = f.parts.concat();
        let fx = match fx.find('<').and_then(|a| fx.find(">[(expr (id zz1))]").map(|b| fx[a + 1..b].to_string())) {
            Some(x) if f.ok() => x,
            _ => return Err(bug("a valid function is rejected", ps, f.show())),
        };
        let word = ["get", "set"][c[1]];
        let tpl = ["x = { WORD k(%) { zz9; } };", "class A { WORD k(%) { zz9; } }", "class A { static WORD k(%) { zz9; } }", "x = { a, WORD [k](%) { zz9; }, b };", "class A { m() { } WORD 'k'(%) { zz9; } n() { } }", "x = class extends B { WORD 1(%) { zz9; } };", "function f() { 'use strict'; x = { WORD k(%) { zz9; } }; }", "f({ WORD get(%) { zz9; } }, 1);"][c[2]].replace("WORD", word);
        let ok = tpl.replace('%', if set { "zz8" } else { "" });
        let g = parse(&ok, false);
        let s = g.parts.concat();
        let (from, to) = if set { ("<(id zz8)>[(expr (id zz9))]", format!("<{}>[(expr (id zz9))]", fx)) } else { ("<>[(expr (id zz9))]", format!("<{}>[(expr (id zz9))]", fx)) };
        if !g.ok() || s.matches(from).count() != 1 {
            return Err(bug("a valid accessor is rejected", &ok, g.show()));
        }
        forgiven(o, &tpl.replace('%', ps), r.pc(10), &s.replace(from, &to), "accessor")
    });
    // assignments to what is no target
    let d = [NO_TARGET.len(), ASSIGNS.len(), ASSIGN_IN.len()];
    cases(cfg, o, "targets", rules::total(&d), |o, r, i| {
        let c = rules::cell(i, rules::total(&d), &d, r);
        let x = parse(&format!("y = {};", NO_TARGET[c[0]]), false);
        let sx = x.parts.concat();
        let sx = match sx.strip_prefix("(expr (= (id y)").and_then(|x| x.strip_suffix("))")) {
            Some(x) if x.len() > 0 => x.to_string(),
            _ => return Err(bug("a valid expression is rejected", NO_TARGET[c[0]], x.show())),
        };
        let st = ASSIGNS[c[1]].replace('%', "zz1");
        let t = ASSIGN_IN[c[2]].replace('%', &st);
        let g = parse(&t, false);
        let s = g.parts.concat();
        if !g.ok() || s.matches("(id zz1)").count() != 1 {
            return Err(bug("a valid program is rejected", &t, g.show()));
        }
        let text = ASSIGN_IN[c[2]].replace('%', &ASSIGNS[c[1]].replace('%', NO_TARGET[c[0]]));
        forgiven(o, &text, r.pc(5), &s.replace("(id zz1)", &sx), "target")
    });
    let d = [6, 4, ASSIGN_IN.len()];
    cases(cfg, o, "proto", rules::total(&d), |o, r, i| {
        let c = rules::cell(i, rules::total(&d), &d, r);
        let t = ["x = { KEY: a, KEY: b };", "x = { c, KEY: a, d() { }, KEY: b, e };", "f({ KEY: a, KEY: b });", "x = [{ KEY: a, KEY: { KEY: b, KEY: c } }];", "x = { KEY: a, KEY: b, KEY: c };", "x = y ? { KEY: a, KEY: b } : z;"][c[0]];
        let key = ["__proto__", "'__proto__'", "\"__proto__\"", "__proto__"][c[1]];
        let t = ASSIGN_IN[c[2]].replace('%', t);
        let ok = t.replace("KEY", if key.starts_with('_') { "__prato__" } else if key.starts_with('\'') { "'__prato__'" } else { "\"__prato__\"" });
        let g = parse(&ok, false);
        if !g.ok() {
            return Err(bug("a valid program is rejected", &ok, g.show()));
        }
        forgiven(o, &t.replace("KEY", key), r.pc(10), &g.parts.concat().replace("__prato__", "__proto__"), "proto")
    });
    // a forgiven mistake, and what stands around it
    cases(cfg, o, "around", cfg.n(120_000, 2_500_000), |o, r, _| {
        let pick = |r: &mut Rng| -> String {
            match r.n(5) {
                0 => JUMP[r.n(JUMP.len())].to_string(),
                1 => ASSIGNS[r.n(ASSIGNS.len())].replace('%', NO_TARGET[r.n(NO_TARGET.len())]),
                2 => STRICT_ONLY[r.n(STRICT_ONLY.len())].to_string(),
                3 => "x = { get a(b) { }, set c() { }, set d(e, f) { } };".to_string(),
                _ => "x = { __proto__: a, __proto__: b };".to_string(),
            }
        };
        let t = &STMT2[if r.pc(30) { 0 } else { r.n(STMT2.len()) }];
        let module = r.pc(25);
        let a = pick(r);
        let b = if r.pc(40) { pick(r) } else { stmt_piece(&src, r, module) };
        if r.pc(50) {
            splice(o, t, true, &a, &b, module, true, "around")
        } else {
            splice(o, t, true, &b, &a, module, true, "around")
        }
    });
    rep(
        "a case counts when a text was run with and without tolerance: valid texts with equal trees, mistakes that are not forgiven with equal errors, forgiven mistakes of the tables with the tree of what is written, and combinations of forgiven mistakes with other code with the results that these have alone; distinct by text",
        &["valid", "same-error", "forgivable.accepted", "forgivable.then-error", "strict", "class", "module", "jump", "label", "accessor", "target", "proto", "around"],
        150_000,
    )
}
/// a function as the body of an if in strict code, a class behind a label
fn passes_strict(e: &E, text: &str) -> bool {
    // `(eval) => x` in strict code
    (e.msg.contains("binding element") && (text.contains("eval") || text.contains("arguments")))
        // `function eval() { 'use strict'; }`
        || (e.msg.contains("Expected ; found Ident") && (text.contains("eval") || text.contains("arguments")))
        || e.msg.ends_with("; ") && (e.msg.contains("token: function;") || e.msg.contains("token: class;"))
}
