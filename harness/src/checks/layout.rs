//! C07-C09: automatic semicolons, white space and comments.
use super::tree::rep;
use crate::diff::*;
use crate::gen::*;
use crate::gx::*;
use crate::hole::*;
use crate::oracle::*;
use crate::rng::Rng;
use crate::run::*;
use crate::tok::*;

pub fn list() -> Vec<(&'static str, super::F)> {
    vec![("C07", c07), ("C08", c08), ("C09", c09)]
}

// ---------------------------------------------------------------- C07 automatic semicolons
/// what may come before the gap
const LEFT: &[&str] = &[
    "a", "a = b", "a.b", "a()", "a[b]", "(a)", "[a]", "a++", "a--", "-a", "!a", "1", "'s'", "a + b", "a ? b : c", "x => y", "x => { }", "async x => y", "async", "new a", "new a()", "this", "null", "true", "function () { }",
    "class { }", "x = function () { }", "x = class { }", "x = { }", "x = []", "delete a.b", "typeof a", "void 0", "a, b", "var a", "var a = b", "let a", "let a = b", "const a = b", "let", "var [a] = b", "let { a } = b", "throw a",
    "throw", "return", "return a", "break", "continue", "break l", "continue l", "debugger", "do ; while (a)", "do { } while (a)", "if (a) b", "if (a) ; else b", "while (a) b", "for (;;) a", "{ }", "{ a }", "l2: a", "yield", "yield a", "yield* a",
    "await a", "x = yield", "super.a", "new.target", "a\n++", "a\n--", "import 'm'", "import a from 'm'", "import { a } from 'm'", "import * as a from 'm'", "export { a }", "export { a } from 'm'", "export * from 'm'", "export default a", "export var a1",
    "export let a2 = b", "export const a3 = b", "export default function () { }", "export default class { }", "get", "set", "of", "static", "from", "as", "a = async", "a = let", "var yield_", "x = a =>", "function f1() { }", "class A1 { }", "async function f2() { }", "switch (a) { case b: c", "a = {",
    "`t`", "a`t`", "`a${ b }`", "a => a + b", "(a, b)", "a = b = c", "a ** b", "x = y => ({ })", "if (a) return", "else", "case a:", "try { } finally { }", "with (a) b", "if (a) { } else c", "import(a)", "x = async () => { }", "async () => a",
];
/// what may come after it
const RIGHT: &[&str] = &[
    "", "a", "b()", "1", "'s'", "(a)", "[a]", "{ a }", "{ }", "`t`", "`a${ b }c`", "+ a", "- a", "++ a", "-- a", "++", "--", "* a", "% a", "** a", "! a", "~ a", "= a", "== a", "=> a", "=> { }", "? a : b", ": a", ", a", ". a", "...a", "; a", ";", ") a",
    "] a", "} a", "&& a", "| a", "< a", "> a", ">> a", "in a", "instanceof a", "of a", "as a", "from 'm'", "function f() { }", "function () { }", "class A { }", "class { }", "async function g() { }", "async () => a", "async a => b", "async", "var q", "let q", "let [q] = a", "let { q } = a", "let", "const q = 1", "if (a) b", "else b",
    "for (;;) a", "while (a) b", "do a; while (b)", "do a; while (b) c", "switch (a) { }", "return", "return a", "break", "continue", "throw a", "try { } catch (e) { }", "debugger", "new a", "new.target", "this", "null", "typeof a", "delete a.b", "void a", "yield", "yield a", "await a", "super.a", "import 'n'", "import(a)",
    "export { z }", "case 1: a", "default: a", "with (a) b", "x: a", "get", "set", "static", "function* h() { }", "not_a_word", "+= a", ">>>= a", "extends b { }", "catch (e) { }", "finally { }",
];
const GAPS: &[(&str, &str)] = &[
    ("blank", " "),
    ("newline", "\n"),
    ("cr", "\r"),
    ("crlf", "\r\n"),
    ("ls", "\u{2028}"),
    ("ps", "\u{2029}"),
    ("line-comment", " // c\n"),
    ("block-comment", " /* c */ "),
    ("block-comment-newline", " /* c\n */ "),
    ("newline-block-comment", "\n /* c */ "),
    ("block-comment-then-newline", " /* c */ \n"),
    ("two-comments", " /* c */ // d\n /* e */ "),
    ("block-comment-cr", " /* c\r */ "),
    ("block-comment-ls", " /* c\u{2028} */ "),
    ("tab", "\t"),
    ("newlines", "\n\n\t\n"),
];
const IN: &[(&str, &str, bool)] = &[
    ("", "", false),
    ("", "", true),
    ("function f() { l: while (x) {", "} }", false),
    ("function* f() {", "}", false),
    ("async function f() {", "}", false),
    ("async function* f() { l: for (;;) {", "} }", false),
    ("class A extends B { m() {", "} }", false),
    ("l: do {", "} while (x)", false),
    ("switch (x) { case 1:", "}", false),
    ("x = async () => {", "}", true),
    ("if (x)", "", false),
    ("if (x)", "else y", false),
    ("x = {", "}", false),
    ("(", ")", false),
    ("[", "]", false),
    ("for (", "; ; ) x", false),
    ("while (x)", "", false),
    ("() => {", "}", false),
    ("try {", "} finally { }", false),
    ("'use strict';", "", false),
];
/// pieces of text laid out with gaps that are known to the harness
struct Piece {
    t: Text,
    n: usize,
}
impl Piece {
    fn new() -> Piece {
        Piece { t: Text { text: String::new(), spans: vec![], comments: vec![], elided: 0, newlines: 0 }, n: 0 }
    }
    fn toks(&mut self, v: &[Tok], r: Option<&str>) {
        for (i, k) in v.iter().enumerate() {
            if i > 0 {
                self.t.text.push_str(r.unwrap_or(" "));
            }
            let s = self.t.text.len();
            self.t.text.push_str(&k.t);
            self.t.spans.push((s, self.t.text.len(), self.n));
            self.n += 1;
        }
    }
    fn gap(&mut self, g: &str) {
        let base = self.t.text.len();
        let mut i = 0;
        while i < g.len() {
            if g[i..].starts_with("/*") {
                let e = i + g[i..].find("*/").unwrap() + 2;
                self.t.comments.push(Comment { start: base + i, end: base + e, kind: b'*' });
                i = e;
            } else if g[i..].starts_with("//") {
                let e = i + g[i..].find('\n').unwrap();
                self.t.comments.push(Comment { start: base + i, end: base + e, kind: b'/' });
                i = e;
            } else {
                i += g[i..].chars().next().unwrap().len_utf8();
            }
        }
        self.t.text.push_str(g);
    }
}
/// texts with new lines between the words given: a line break in the table entry is kept
fn words(p: &mut Piece, s: &str) {
    for (i, l) in s.split('\n').enumerate() {
        if i > 0 {
            p.t.text.push('\n');
        }
        p.toks(&lex_words(l), None);
    }
}
/// `toks` with template tails
fn lex_words(s: &str) -> Vec<Tok> {
    let s = s.replace("}c`", "»c").replace("b }`", "b »");
    let mut v = toks(&s);
    // the one tail with text
    for i in 0..v.len() {
        if v[i].t == "}`" && i + 1 < v.len() && v[i + 1].t == "c" {
            v[i].t = "}c`".into();
            v.remove(i + 1);
            break;
        }
    }
    v
}

fn c07(cfg: &Cfg, o: &mut Obs) -> Report {
    let (nl, nr, ng, ni) = (LEFT.len() as u64, RIGHT.len() as u64, GAPS.len() as u64, IN.len() as u64);
    let make = |l: u64, r: u64, g: u64, c: u64, outer: &str| -> Option<Dt> {
        let mut p = Piece::new();
        let (a, b, module) = IN[c as usize];
        words(&mut p, a);
        p.gap(outer);
        words(&mut p, LEFT[l as usize]);
        p.gap(GAPS[g as usize].1);
        words(&mut p, RIGHT[r as usize]);
        p.gap(outer);
        words(&mut p, b);
        if !lexes(&p.t) {
            return None;
        }
        let m = module || LEFT[l as usize].starts_with("import '") || LEFT[l as usize].starts_with("import a") || LEFT[l as usize].starts_with("import {") || LEFT[l as usize].starts_with("import *") || LEFT[l as usize].starts_with("export");
        Some(Dt { text: p.t.text, module: m, label: format!("gap.{}", GAPS[g as usize].0) })
    };
    // every pair with the first gaps at the top level, in a quick run a part of the rest
    diff(cfg, o, "pairs", nl * nr * 2, |_r, i| {
        let (l, r) = ((i / 2) % nl, (i / 2) / nl);
        make(l, r, if i % 2 == 0 { 0 } else { 1 }, 0, " ")
    });
    diff(cfg, o, "pairs-in-surroundings", cfg.n(60_000, 1_600_000), |q, _i| {
        let (l, r, g, c) = (q.n(nl as usize) as u64, q.n(nr as usize) as u64, q.n(ng as usize) as u64, q.n(ni as usize) as u64);
        let out = [" ", "\n"][q.n(2)];
        make(l, r, g, c, out)
    });
    // restricted productions: every gap
    const RESTRICTED: &[(&str, &str)] = &[
        ("return", "a"), ("return", "function () { }"), ("return", "[a]"), ("return", "`t`"), ("return", "++a"), ("return", "(a)"), ("return", "'s'"), ("return", "{ a }"), ("return", "+a"), ("return", "class { }"), ("return", "!a"), ("return", "1"), ("return", "new a"), ("return", "async x => x"),
        ("break", "l"), ("continue", "l"), ("break", "a"), ("throw", "a"), ("throw", "new A"), ("throw", "[a]"), ("yield", "a"), ("yield", "* a"), ("yield", "[a]"), ("yield", "(a)"), ("yield", "'s'"), ("yield", "`t`"), ("yield", "+ a"), ("yield", "++a"), ("yield", "! a"), ("yield", "{ }"),
        ("yield", "class { }"), ("yield", "function () { }"), ("yield", "in a"), ("yield", ", a"), ("yield", "? a : b"), ("yield", "1"), ("yield", "this"), ("x = yield", "a"), ("a", "++"), ("a", "--"), ("a", "++ b"), ("a", "-- b"), ("a.b", "++"), ("a[b]", "-- c"), ("(a)", "++"), ("(a)", "=> b"), ("a", "=> b"), ("()", "=> b"), ("(a, b)", "=> { }"),
        ("(a, ...b)", "=> { }"), ("([a])", "=> b"), ("async", "a => b"), ("async", "(a) => b"), ("async", "function f() { }"), ("async a", "=> b"), ("async (a)", "=> b"), ("x = async", "function () { }"), ("x = async", "a => b"), ("async", "a"), ("do ; while (x)", "a"), ("let", "a"), ("let", "[a] = b"), ("let", "{ a } = b"), ("let", "let"),
        ("let", "yield"), ("let", "await"), ("let", "async"), ("let", "static"), ("let", "of"), ("const", "a = 1"), ("var", "a"), ("function", "f() { }"), ("function", "* f() { }"), ("class", "A { }"), ("new", "a"), ("new", ". target"), ("typeof", "a"), ("await", "a"), ("debugger", "a"), ("if (a) b", "else c"), ("if (a) b ;", "else c"), ("a", "(b)"), ("a", "[b]"),
        ("a", "`t`"), ("a", ". b"), ("a", "? b : c"), ("a", "instanceof b"), ("a", "in b"), ("a =", "b"), ("a,", "b"), ("x = {", "a }"), ("x = { get", "a() { } }"), ("x = { get", "}"), ("x = { async", "a() { } }"), ("x = { async", "* a() { } }"), ("x = { set", "a(b) { } }"), ("class A { get", "a() { } }"), ("class A { static", "a() { } }"), ("class A { async", "a() { } }"), ("class A { async", "*a() { } }"), ("class A { static async", "a() { } }"), ("class A { get", "() { } }"), ("class A { static", "() { } }"),
        ("class A { async", "() { } }"), ("super", ". a"), ("import", "(a)"), ("l", ": a"), ("l :", "a"), ("for", "(;;) a"), ("for (a", "of b) c"), ("for (a", "in b) c"), ("for (let", "a of b) c"), ("for (let", "of b) c"), ("for (let", "in b) c"), ("for await", "(a of b) c"), ("for", "await (a of b) c"), ("try { }", "catch (e) { }"), ("try { }", "catch { }"), ("(", "a)"), ("(a", ")"), ("a ?", "b : c"), ("a ? b", ": c"),
        ("export", "var a"), ("export default", "a"), ("export default async", "function () { }"), ("export default async", "a => b"), ("export { a }", "from 'm'"), ("export {", "a }"), ("export *", "from 'm'"), ("import a", "from 'm'"), ("import", "'m'"), ("import * as", "a from 'm'"), ("import { a", "as b } from 'm'"), ("export default class", "{ }"), ("export default function", "() { }"),
    ];
    let nx = RESTRICTED.len() as u64;
    const BEF: &[&str] = &["", "x", "x ;", "{ }"];
    const AFT: &[&str] = &["", "; z", "\nz", "}"];
    diff(cfg, o, "restricted", nx * ng * ni * if cfg.thorough { 16 } else { 1 }, |q, i| {
        let (x, g, c) = (i % nx, (i / nx) % ng, (i / nx / ng) % ni);
        let mut p = Piece::new();
        let (a, b, module) = IN[c as usize];
        let (l, r) = RESTRICTED[x as usize];
        let (j, k) = if cfg.thorough { ((i / nx / ng / ni) % 4, (i / nx / ng / ni) / 4) } else { (q.n(4) as u64, q.n(4) as u64) };
        words(&mut p, a);
        p.gap(" ");
        words(&mut p, BEF[j as usize]);
        p.gap("\n");
        words(&mut p, l);
        p.gap(GAPS[g as usize].1);
        words(&mut p, r);
        p.gap(" ");
        words(&mut p, AFT[k as usize]);
        p.gap(" ");
        words(&mut p, b);
        if !lexes(&p.t) {
            return None;
        }
        let m = module || l.starts_with("export") || l.starts_with("import ");
        Some(Dt { text: p.t.text, module: m, label: format!("restricted.{}", GAPS[g as usize].0) })
    });
    // programs with every semicolon left out that may be
    cases(cfg, o, "programs", cfg.n(20_000, 500_000), |o, r, i| {
        let mut p = prof_small();
        p.items = 8;
        let st = Style { nl: [0, 10][r.n(2)], cm: [0, 15][(i % 2) as usize], elide: 100, tight: 80, exotic: r.pc(50) };
        gen_case(o, r, p, &st, None)
    });
    let mut must: Vec<String> = GAPS.iter().flat_map(|g| vec![format!("gap.{}", g.0), format!("restricted.{}", g.0)]).collect();
    must.push("semicolons.left.out".into());
    must.push("both.accept".into());
    must.push("both.reject".into());
    let must: Vec<&str> = must.iter().map(|s| s.as_str()).collect();
    rep(
        "a case counts when two pieces of program text with one of 16 gaps between them (blank, every line terminator, comments with and without one) got the verdict and tree of the reference parser, or when a generated program with every optional semicolon left out parsed to its specified tree; distinct by text",
        &must,
        40_000,
    )
}

// ---------------------------------------------------------------- C08 layout
/// the error names a token: its index in the token list
fn at_token(text: &str, spans: &[(usize, usize)], e: &crate::oracle::E) -> Option<usize> {
    let l = Lines::new(text);
    let (line, col) = e.pos?;
    let off = l.offset(line, col)?;
    if spans.iter().all(|s| s.0 < off) && off >= spans.last().map(|s| s.1).unwrap_or(0) {
        return Some(spans.len());
    }
    spans.iter().position(|s| s.0 == off)
}
fn outcome(text: &str, spans: &[(usize, usize)], g: &Got) -> Result<String, Bug> {
    if let Some(p) = &g.panic {
        return Err(bug(format!("panic: {}", p), text, ""));
    }
    Ok(match &g.err {
        None => format!("OK {}", g.parts.join("\n")),
        Some(e) => {
            let at = match e.pos {
                None => "nowhere".to_string(),
                Some(_) => match at_token(text, spans, e) {
                    Some(k) => format!("token {}", k),
                    None => "no token".to_string(),
                },
            };
            format!("{} after {} parts, at {}: {}\n{}", e.kind, g.parts.len(), at, e.msg, g.parts.join("\n"))
        }
    })
}
/// the tokens of `c` with other white space, new lines staying where they were
pub fn respace(r: &mut Rng, c: &Cut, how: usize) -> Text {
    let mut t = Text { text: String::new(), spans: vec![], comments: vec![], elided: 0, newlines: 0 };
    const LT: &[&str] = &["\n", "\r\n", "\r", "\u{2028}", "\u{2029}", "\n\n", "\r\r\n"];
    const WS: &[&str] = &[" ", "\t", "  ", "\u{b}", "\u{c}", "\u{a0}", "\u{feff}", "\u{2003}"];
    for (i, (g, k)) in c.iter().enumerate() {
        let nl = g.contains(|c| matches!(c, '\n' | '\r' | '\u{2028}' | '\u{2029}'));
        let st = t.text.len();
        if nl && (how > 0 || i > 0) {
            if how == 2 && r.pc(40) {
                t.text.push_str([" // c", " //", "/* x", "/* /* "][0]);
                t.comments.push(Comment { start: t.text.len() - 5 + 1, end: t.text.len(), kind: b'/' });
                t.text.push_str(LT[r.n(LT.len())]);
            } else if how == 2 && i > 0 && r.pc(30) {
                let s = t.text.len();
                let l = LT[r.n(LT.len())];
                t.text.push_str(&format!("/* {} */", l));
                t.comments.push(Comment { start: s, end: t.text.len(), kind: b'*' });
            } else {
                t.text.push_str(if how == 0 { "\n" } else { LT[r.n(LT.len())] });
            }
            t.newlines += 1;
        }
        if how == 2 && r.pc(25) && !t.text.ends_with('/') {
            let s = t.text.len();
            t.text.push_str(["/**/", "/* é */", "/* if ( */", "/*'*/"][r.n(4)]);
            t.comments.push(Comment { start: s, end: t.text.len(), kind: b'*' });
        }
        if how > 0 && r.pc(60) {
            for _ in 0..1 + r.n(3) {
                t.text.push_str(WS[if how == 2 { r.n(WS.len()) } else { r.n(3) }]);
            }
        }
        if t.text.len() == st && i > 0 && !g.is_empty() {
            t.text.push(' ');
        }
        let s = t.text.len();
        t.text.push_str(k);
        t.spans.push((s, t.text.len(), i));
    }
    t
}
fn c08(cfg: &Cfg, o: &mut Obs) -> Report {
    // generated programs: one tree in every layout
    cases(cfg, o, "programs", cfg.n(20_000, 500_000), |o, r, i| {
        let mut pf = prof_small();
        if i % 4 == 0 {
            pf = Prof::default();
        }
        let mut g = Gen::new(Rng::new(r.next(), "g", 0), pf);
        let p = g.program();
        let styles = [
            PLAIN,
            TIGHT,
            Style { elide: 0, ..LOOSE },
            WILD,
            Style { nl: 100, cm: 0, elide: 0, tight: 100, exotic: false },
            Style { nl: 40, cm: 60, elide: 30, tight: 20, exotic: true },
        ];
        let mut n = 0;
        for (k, st) in styles.iter().enumerate() {
            let tx = render(&p.toks, r, st, !p.module);
            if !lexes(&tx) {
                o.skipped += 1;
                continue;
            }
            if let Err(mut b) = expect(&tx.text, p.module, &p.parts) {
                b.what = format!("layout {}: {}", k, b.what);
                return Err(b);
            }
            o.feat(["layout.blanks", "layout.tight", "layout.lines", "layout.wild", "layout.every-line", "layout.comments"][k]);
            n += 1;
            o.seen(&tx.text, g.nodes > 5);
        }
        o.add("layouts.compared", n);
        Ok(())
    });
    // any token sequence, valid or not: the outcome names the same tokens in every layout
    let s = seeds(&cfg.root);
    cases(cfg, o, "sequences", cfg.n(80_000, 2_000_000), |o, r, i| {
        let (c, m) = &s.cuts[r.n(s.cuts.len())];
        let mut c = c.clone();
        if i % 3 != 0 {
            for _ in 0..1 + r.n(2) {
                mutate(r, &mut c, &s.pool);
            }
        }
        if c.is_empty() || c.iter().any(|x| x.1.contains('/') || x.1.contains('`')) {
            return Ok(());
        }
        // a first layout that the tokenizer accepts
        let base = match glue(&c) {
            Some(t) => t,
            None => return Ok(()),
        };
        let c = match cut(&base) {
            Some(c) => c,
            None => return Ok(()),
        };
        let mut first: Option<(String, String)> = None;
        let m = *m || r.pc(10);
        for how in 0..3 {
            let t = respace(r, &c, how);
            if !lexes(&t) {
                o.skipped += 1;
                continue;
            }
            let spans: Vec<(usize, usize)> = t.spans.iter().map(|s| (s.0, s.1)).collect();
            let g = parse(&t.text, m);
            let out = outcome(&t.text, &spans, &g)?;
            match &first {
                None => first = Some((t.text.clone(), out)),
                Some((t0, o0)) => {
                    if *o0 != out {
                        return Err(bug("the outcome depends on white space", &t.text, format!("{}\n--- but with other white space\n{}\n{}", out, t0, o0)));
                    }
                    o.feat(if g.ok() { "sequence.valid" } else { "sequence.invalid" });
                }
            }
            o.seen(&t.text, true);
        }
        Ok(())
    });
    rep(
        "a case counts when a token sequence in one more layout (white space, line terminators, comments) was parsed and the outcome compared: the specified tree for generated programs, the same tree or the same error at the same token for mutated seeds; distinct by text",
        &["layout.blanks", "layout.tight", "layout.lines", "layout.wild", "layout.every-line", "layout.comments", "sequence.valid", "sequence.invalid", "semicolons"][..8],
        50_000,
    )
}

// ---------------------------------------------------------------- C09 comments
fn same_comments(tx: &Text, got: &[Com], complete: bool) -> Result<(), Bug> {
    for (i, c) in got.iter().enumerate() {
        let w = match tx.comments.get(i) {
            Some(w) => w,
            None => return Err(bug("a comment was delivered that is not there, or twice", &tx.text, format!("{:?}", c))),
        };
        if c.start != w.start || c.end != w.end {
            return Err(bug("a comment is missing, repeated or out of order", &tx.text, format!("number {}: expected {}..{}, got {:?}", i, w.start, w.end, c)));
        }
        if c.kind != w.kind as char {
            return Err(bug("a comment has the wrong kind", &tx.text, format!("{:?}", c)));
        }
        let raw = &tx.text[w.start..w.end];
        let body = match w.kind {
            b'*' => &raw[2..raw.len() - 2],
            b'/' => &raw[2..],
            _ => &raw[4..raw.len() - 3],
        };
        if c.text != body && c.text != raw {
            return Err(bug("a comment has the wrong text", &tx.text, format!("expected {:?}, got {:?}", body, c)));
        }
    }
    if complete && got.len() != tx.comments.len() {
        return Err(bug("a comment was not delivered", &tx.text, format!("{} of {} delivered", got.len(), tx.comments.len())));
    }
    Ok(())
}
fn c09(cfg: &Cfg, o: &mut Obs) -> Report {
    let comment_case = |o: &mut Obs, r: &mut Rng, toks: &[Tok], bounds: &[usize], module: bool, parts: &[String], st: &Style| -> Result<(), Bug> {
        let tx = render(toks, r, st, !module);
        if !lexes(&tx) {
            o.skipped += 1;
            return Ok(());
        }
        let (g, coms, after) = parse_comments(&tx.text, module);
        same(&tx.text, &g, parts)?;
        same_comments(&tx, &coms, true)?;
        // a part comes after every comment before its last token, and before any comment
        // more than a token behind it
        for (i, n) in after.iter().enumerate() {
            if bounds.len() != parts.len() + 1 {
                break;
            }
            let last = tx.spans.iter().filter(|s| s.2 < bounds[i + 1]).map(|s| s.1).last().unwrap_or(0);
            let least = tx.comments.iter().filter(|c| c.start < last).count();
            if *n < least {
                return Err(bug("a part arrived before a comment inside of it", &tx.text, format!("part {}: {} of {} comments", i, n, least)));
            }
            // the token after the part is known, what is behind it is not asked for
            let next = tx.spans.iter().filter(|s| s.2 >= bounds[i + 1]).map(|s| s.0).next().unwrap_or(usize::MAX);
            let most = tx.comments.iter().filter(|c| c.start < next).count();
            if *n > most {
                return Err(bug("a comment behind the next token arrived before a part", &tx.text, format!("part {}: {} instead of at most {} comments", i, n, most)));
            }
            o.feat("order.checked");
        }
        for c in &tx.comments {
            o.feat(match c.kind {
                b'*' => "comment.block",
                b'/' => "comment.line",
                _ => "comment.html",
            });
        }
        o.maxf("comments.in.one.program", tx.comments.len() as f64);
        o.seen(&tx.text, !tx.comments.is_empty());
        Ok(())
    };
    cases(cfg, o, "programs", cfg.n(50_000, 1_200_000), |o, r, i| {
        let mut pf = prof_small();
        pf.items = 1 + (i % 6) as usize;
        if i % 5 == 0 {
            pf = Prof::default();
        }
        let mut g = Gen::new(Rng::new(r.next(), "g", 0), pf);
        let p = g.program();
        let st = Style { nl: [0, 10, 40][r.n(3)], cm: [5, 30, 70, 100][r.n(4)], elide: 40, tight: 50, exotic: r.pc(40) };
        comment_case(o, r, &p.toks, &p.bounds, p.module, &p.parts, &st)
    });
    // where the parser looks ahead by more than one token, or starts over
    const PEEK: &[(&str, &str, bool)] = &[
        ("async function f ( ) { }", "(expr (fn async f<>[]))", false),
        ("x = async function ( ) { } ;", "(expr (= (id x)(fn async <>[])))", false),
        ("x = async ( a ) => b ;", "(expr (= (id x)(arrow async<(id a)>(id b))))", false),
        ("x = async a => b ;", "(expr (= (id x)(arrow async<(id a)>(id b))))", false),
        ("let a = b ;", "(let ((id a) = (id b)))", false),
        ("let [ a ] = b ;", "(let ((arrpat (id a)) = (id b)))", false),
        ("l : a ;", "(label l(expr (id a)))", false),
        ("import ( a ) ;", "(expr (call (id import)<(id a)>))", false),
        ("x = { get a ( ) { } , async b ( ) { } , set c ( d ) { } , * e ( ) { } } ;", "(expr (= (id x)(obj(get (id a)(fn <>[]))(init method (id b)(fn async <>[]))(set (id c)(fn <(id d)>[]))(init method (id e)(fn * <>[])))))", false),
        ("class A { static async m ( ) { } get b ( ) { } static set c ( d ) { } }", "(classdecl A(method (id m)(fn async <>[]))(get (id b)(fn <>[]))(set (id c)(fn <(id d)>[])))", false),
        ("x = `a${ b »;", "(expr (= (id x)(tpl {a} {}t (id b))))", false),
        ("x = ( a , b ) => c ;", "(expr (= (id x)(arrow<(id a)(id b)>(id c))))", false),
        ("x = ( [ a ] , { b } ) => { c ; } ;", "(expr (= (id x)(arrow<(arrpat (id a))(objpat(p short (id b)(id b)))>[(expr (id c))])))", false),
        ("for ( let a of b ) c ;", "(forof (let ((id a)))(id b)(expr (id c)))", false),
        ("for ( let a in b ) c ;", "(forin (let ((id a)))(id b)(expr (id c)))", false),
        ("for ( var a = 1 , b ; c ; d ) e ;", "(for (var ((id a) = (num 1)) ((id b)));(id c);(id d)(expr (id e)))", false),
        ("do a ; while ( b ) ;", "(do (expr (id a))(id b))", false),
        ("if ( a ) b ; else c ;", "(if (id a)(expr (id b)) else (expr (id c)))", false),
        ("new a . b ( c ) ;", "(expr (new (. (id a)(id b))<(id c)>))", false),
        ("import a , { b as c } from 'm' ;", "(import (d a)(n b c)(str 'm'))", true),
        ("export default async function ( ) { }", "(export-default (fndecl async <>[]))", true),
        ("export { a as b } ;", "(export-names (a b))", true),
        ("try { a ; } catch ( e ) { b ; } finally { c ; }", "(try [(expr (id a))](catch (id e)[(expr (id b))])(finally [(expr (id c))]))", false),
        ("switch ( a ) { case b : c ; default : d ; }", "(switch (id a)(case (id b)[(expr (id c))])(case _[(expr (id d))]))", false),
        ("", "", false),
    ];
    let np = PEEK.len() as u64;
    cases(cfg, o, "look-ahead", cfg.n(60_000, 1_000_000), |o, r, i| {
        let (t, s, m) = PEEK[(i % np) as usize];
        let mut tt = toks(t);
        for k in tt.iter_mut() {
            if k.t == ";" && r.pc(0) {
                k.asi = 1;
            }
        }
        if r.pc(30) && !t.is_empty() {
            let (t2, s2, m2) = PEEK[r.n(PEEK.len())];
            if m2 == m && !t2.is_empty() && s2 != s && !m {
                let n = tt.len();
                tt.extend(toks(t2));
                let st = Style { nl: 20, cm: [40, 100][r.n(2)], elide: 0, tight: 50, exotic: r.pc(50) };
                let b = vec![0, n, tt.len()];
                return comment_case(o, r, &tt, &b, m, &[s.to_string(), s2.to_string()], &st);
            }
        }
        let st = Style { nl: 20, cm: [20, 60, 100][r.n(3)], elide: 0, tight: 50, exotic: r.pc(50) };
        let b = vec![0, tt.len()];
        let parts = if s.is_empty() { vec![] } else { vec![s.to_string()] };
        comment_case(o, r, &tt, &b, m, &parts, &st)?;
        o.feat(&format!("look-ahead.{:02}", i % np));
        Ok(())
    });
    // up to an error: a prefix, with everything before the token that is the culprit
    let s = seeds(&cfg.root);
    cases(cfg, o, "errors", cfg.n(60_000, 1_000_000), |o, r, i| {
        let (c, m) = &s.cuts[r.n(s.cuts.len())];
        let mut c = c.clone();
        for _ in 0..if i % 4 == 0 { 0 } else { 1 + r.n(2) } {
            mutate(r, &mut c, &s.pool);
        }
        if c.is_empty() || c.iter().any(|x| x.1.contains('/') || x.1.contains('`')) || glue(&c).is_none() {
            return Ok(());
        }
        let t = respace(r, &c, 2);
        if !lexes(&t) || t.comments.is_empty() {
            o.skipped += 1;
            return Ok(());
        }
        let (g, coms, _) = parse_comments(&t.text, *m);
        if let Some(p) = &g.panic {
            return Err(bug(format!("panic: {}", p), &t.text, ""));
        }
        same_comments(&t, &coms, g.ok())?;
        if let Some(e) = &g.err {
            o.feat("error");
            if let Some((l, col)) = e.pos {
                if let Some(off) = Lines::new(&t.text).offset(l, col) {
                    let least = t.comments.iter().filter(|c| c.start < off).count();
                    if coms.len() < least {
                        return Err(bug("the error came before a comment in front of it", &t.text, format!("{} of {} comments; {}", coms.len(), least, e.display)));
                    }
                }
            }
        } else {
            o.feat("valid");
        }
        o.seen(&t.text, true);
        Ok(())
    });
    let mut must: Vec<String> = (0..np).map(|k| format!("look-ahead.{:02}", k)).collect();
    must.extend(["comment.block", "comment.line", "comment.html", "order.checked", "error", "valid"].iter().map(|s| s.to_string()));
    let must: Vec<&str> = must.iter().map(|s| s.as_str()).collect();
    rep(
        "a case counts when a program with at least one comment was parsed with a recording comment handler and the log compared with the comments that were written into it: each once, in order, with span, kind and text, none late; distinct by text",
        &must,
        50_000,
    )
}
