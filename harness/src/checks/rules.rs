//! C16, C17, C21-C23: tables of everything that a rule of the language tells apart,
//! each entry judged against the reference parser.
use super::tree::rep;
use crate::diff::*;
use crate::rng::Rng;
use crate::run::*;

pub fn list() -> Vec<(&'static str, super::F)> {
    vec![("C16", c16), ("C17", c17), ("C21", c21), ("C22", c22), ("C23", c23)]
}

/// surroundings of a statement, as (text before, text after)
pub const CTXS: &[(&str, &str)] = &[
    ("", ""),
    ("'use strict';", ""),
    ("function f() {", "}"),
    ("function* f() {", "}"),
    ("async function f() {", "}"),
    ("async function* f() {", "}"),
    ("x = function* () {", "};"),
    ("x = async function () {", "};"),
    ("x = () => {", "};"),
    ("x = async () => {", "};"),
    ("x = async a => {", "};"),
    ("function f() { 'use strict';", "}"),
    ("function* f() { 'use strict';", "}"),
    ("class A { m() {", "} }"),
    ("class A { *m() {", "} }"),
    ("class A { async m() {", "} }"),
    ("class A { async *m() {", "} }"),
    ("class A { static async m() {", "} }"),
    ("class A { get m() {", "} }"),
    ("class A { set m(a) {", "} }"),
    ("class A { constructor() {", "} }"),
    ("class A extends B { constructor() {", "} }"),
    ("x = { m() {", "} };"),
    ("x = { *m() {", "} };"),
    ("x = { async m() {", "} };"),
    ("x = { async *m() {", "} };"),
    ("x = { get m() {", "} };"),
    ("x = { set m(a) {", "} };"),
    ("function* f() { function g() {", "} }"),
    ("function* f() { x = () => {", "}; }"),
    ("function* f() { x = async () => {", "}; }"),
    ("function* f() { x = { m() {", "} }; }"),
    ("async function f() { function g() {", "} }"),
    ("async function f() { x = () => {", "}; }"),
    ("async function f() { function* g() {", "} }"),
    ("async function f() { class A { m() {", "} } }"),
    ("x = async () => { x = function () {", "} };"),
    ("function* f() { {", "} }"),
    ("async function f() { if (x) {", "} }"),
    ("function* f() { } {", "}"),
    ("async function f() { } {", "}"),
    ("x = async () => { };", ""),
    ("class A { } {", "}"),
    ("while (x) { switch (x) { case 1:", "} }"),
];

/// places of an expression
pub const PLACES: &[&str] = &[
    "%;",
    "x = %;",
    "x += %;",
    "f(%);",
    "f(1, ...%);",
    "function g(a = %) { }",
    "function* g(a = %) { }",
    "async function g(a = %) { }",
    "async function* g({ a = % }) { }",
    "x = function (a = %) { };",
    "x = function* ([a = %]) { };",
    "x = async function (a = %) { };",
    "x = (a = %) => 1;",
    "x = ({ a = % }) => 1;",
    "x = ({ [%]: a }) => 1;",
    "x = async (a = %) => 1;",
    "x = async ({ a: b = % }) => 1;",
    "x = (a = (b = %) => 1) => 1;",
    "x = { m(a = %) { } };",
    "x = { *m(a = %) { } };",
    "x = { async m(a = %) { } };",
    "x = { set m(a = %) { } };",
    "x = { [%]: 1 };",
    "x = { [%]() { } };",
    "x = { *[%]() { } };",
    "x = { async [%]() { } };",
    "x = { get [%]() { } };",
    "x = { a: % };",
    "x = { ...% };",
    "class A extends (%) { }",
    "class A extends % { }",
    "x = class extends (%) { };",
    "class A { [%]() { } }",
    "class A { *[%]() { } }",
    "class A { static async [%]() { } }",
    "class A { m(a = %) { } }",
    "class A { constructor(a = %) { } }",
    "class A { set m(a = %) { } }",
    "let { a = % } = y;",
    "let { [%]: a } = y;",
    "var [a = %] = y;",
    "({ a = % } = y);",
    "[a = %] = y;",
    "[x[%]] = y;",
    "x = `${ % }`;",
    "x`${ % }`;",
    "for (%;;) ;",
    "for (; %; %) ;",
    "for (x of %) ;",
    "for (x in %) ;",
    "for (let a = %;;) ;",
    "for (let a of %) ;",
    "for (const a in %) ;",
    "for (var { a = % } of y) ;",
    "if (%) ;",
    "if (x) % \n else %",
    "while (%) ;",
    "do % \n while (%)",
    "switch (%) { case %: %; default: % }",
    "throw %;",
    "with (%) ;",
    "l: %;",
    "var a = %, b = %;",
    "const a = %;",
    "try { % } catch ({ a = % }) { % } finally { % }",
    "x = () => %;",
    "x = async () => %;",
    "x = a => { % };",
    "x = async a => { % };",
    "x = function () { return % };",
    "x = function* () { return % };",
    "x = async function () { return % };",
    "x ? % : %;",
    "x = % ? 1 : 2;",
    "[%];",
    "[...%];",
    "[, %, ];",
    "new (%);",
    "new x(%);",
    "new %;",
    "x[%];",
    "(%);",
    "(%, %);",
    "-%;",
    "void %;",
    "typeof %;",
    "delete %;",
    "!%;",
    "++%;",
    "%++;",
    "await %;",
    "yield %;",
    "yield* %;",
    "% + 1;",
    "1 + %;",
    "% ** 2;",
    "2 ** %;",
    "% in x;",
    "x || %;",
    "%.x;",
    "%();",
    "%`a`;",
    "(%).x;",
    "%, 1;",
    "1, %;",
    "%\n1",
    "%\n(1)",
    "1\n%",
    "% = 1;",
    "(%) = 1;",
    "{ % }",
    "async (%);",
    "(%) => 1;",
    "async (%) => 1;",
    "import(%);",
];

fn put(place: &str, x: &str) -> String {
    place.replace('%', x)
}
fn in_ctx(c: (&str, &str), s: &str) -> String {
    if c.0.is_empty() && c.1.is_empty() {
        s.to_string()
    } else {
        format!("{}\n{}\n{}", c.0, s, c.1)
    }
}
/// index of case i of a grid with these dimensions; i runs over all of it, or, when only a
/// part is run, over an even spread
pub fn cell(i: u64, n: u64, dims: &[usize], r: &mut Rng) -> Vec<usize> {
    let total: u64 = dims.iter().map(|d| *d as u64).product();
    let mut k = if n >= total { i % total } else { (i * total / n + r.next() % (total / n).max(1)) % total };
    dims.iter()
        .map(|d| {
            let x = (k % *d as u64) as usize;
            k /= *d as u64;
            x
        })
        .collect()
}
pub fn total(dims: &[usize]) -> u64 {
    dims.iter().map(|d| *d as u64).product()
}
fn dt(text: String, module: bool, label: &str) -> Option<Dt> {
    // one place for the traps of the tokenizer
    if text.contains("<!--") || text.contains("-->") {
        return None;
    }
    if !slashes(&text) {
        return None;
    }
    Some(Dt { text, module, label: label.into() })
}
/// No doubt whether a slash starts a regular expression (that is the tokenizer's business).
pub fn slashes(text: &str) -> bool {
    let b = text.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'/' {
            let len = if text[i..].starts_with("/r/g") {
                4
            } else if text[i..].starts_with("/r/") || text[i..].starts_with("/=/") || text[i..].starts_with("/a/") {
                3
            } else {
                return false;
            };
            let before = text[..i].trim_end().bytes().last().unwrap_or(b';');
            let two = text[..i].trim_end();
            if !b"(,=[?:&|!;<>".contains(&before) || two.ends_with("++") {
                return false;
            }
            i += len;
        } else {
            i += 1;
        }
    }
    true
}

// ---------------------------------------------------------------- crowds
/// statements that are valid wherever a statement list is, and switch the parser to and fro
const BESIDE: &[&str] = &[
    "x = { async m() { await x; } };", "x = { *m() { yield x; } };", "x = { async *m() { await (yield x); } };", "x = { get m() { return 1; }, set m(a) { } };", "x = { m() { }, async n() { }, *o() { } };", "x = { async [y]() { }, *'a'() { } };", "class Q { async m() { await x; } *n() { yield x; } }", "class Q { static async *m() { } get n() { } set n(a) { } }", "class Q extends R { constructor() { super(); } }", "x = class { };", "x = class extends y { m() { super.m(); } };",
    "function* q() { yield; }", "async function q() { await x; }", "async function* q() { for await (x of y) yield x; }", "function q(a, b = 1, ...c) { return a; }", "function q() { 'use strict'; return; }", "x = function* () { yield* x; };", "x = async function () { await x; };", "x = function () { 'use strict'; };", "x = () => { };", "x = () => { 'use strict'; };", "x = async () => { await x; };", "x = async a => await a;", "x = async (a, b = 1) => { };", "x = (a, { b = 1 }) => a;", "x = async(y, z);", "x = (a = function* () { yield; }) => 1;", "x = (a = async function () { await x; }) => 1;",
    "while (x) { break; }", "Q: while (x) continue Q;", "Q: { break Q; }", "for (;;) { continue; }", "for (var q = 0, s = 1; q in s; ) ;", "for (let q = 0; ; ) break;", "for (q of x) ;", "for (const [q] of x) { }", "for (var q in x) continue;", "for (q.r in x) ;", "switch (x) { case 1: break; default: }", "switch (x) { case y in z: }", "do { break } while (x)", "Q: for (;;) { switch (x) { case 1: continue Q; } }", "Q: R: for (x of y) { break R; }", "if (x) { } else y;", "try { } catch { } finally { }", "try { throw x } catch ({ a, b: [c] }) { }",
    "x = ({ a, b = 1 } = y);", "[x, y = 1, ...z] = w;", "({ x, ...y } = z);", "({ a: x.y, b: [z] } = w);", "var { q, r = 1, ...s } = x;", "let [t0, [t1 = 1]] = x;", "x = [a, (b), c => d];", "(x);", "x = (a, b);", "x = `${ y }a${ () => { } }`;", "x = y\n++z", "x++;", "x = y in z;", "x = y ? z : w;", "x = -(y ** 2) || z;", "x = { a, 'b': 1, [c]: 2, ...d };", "import('x');", "x = /=/g;", "x = y * z * w;", ";", "{ }", "debugger;", "x\n", "var q\n", "delete x.y;", "x = typeof void y;",
];
/// The leaf in two to five surroundings, with other code beside it and beside them.
fn crowd(r: &mut Rng, leaf: String) -> String {
    let beside = |r: &mut Rng| BESIDE[r.n(BESIDE.len())];
    let mut t = leaf;
    let n = 2 + r.n(4);
    for k in 0..n {
        // at most two of any one level, most levels have one
        if r.pc(60) {
            t = format!("{}\n{}", beside(r), t);
        }
        if r.pc(25) {
            t = format!("{}\n{}", beside(r), t);
        }
        if r.pc(25) {
            t = format!("{}\n{}", t, beside(r));
        }
        let (a, b) = match r.n(8) {
            0..=2 => CTXS[r.n(CTXS.len())],
            3 | 4 => {
                let (a, b) = JUMP_IN[r.n(JUMP_IN.len())];
                if a.contains("L:") && k > 0 && t.contains("L:") {
                    ("{", "}")
                } else if a.ends_with('{') || a.ends_with("{ ") || a.contains("case") || a.contains("default") {
                    (a, b)
                } else {
                    t = format!("{{ {}\n}}", t);
                    (a, b)
                }
            }
            5 => DEEP[r.n(DEEP.len())],
            6 => BODIES[r.n(BODIES.len())],
            _ => MORE[r.n(MORE.len())],
        };
        t = format!("{}\n{}\n{}", a, t, b);
    }
    t
}
/// code in less usual places
const MORE: &[(&str, &str)] = &[
    ("function q(a = function () {", "}) { }"),
    ("function* q(a = () => {", "}) { }"),
    ("async function q(a = function* () {", "}) { }"),
    ("x = (a = () => {", "}) => 1;"),
    ("x = async (a = function () {", "}) => 1;"),
    ("class Q { [function () {", "}]() { } }"),
    ("class Q extends (function () {", "}) { }"),
    ("x = { [() => {", "}]: 1 };"),
    ("x = { get a() { }, b: () => {", "}, async c() { } };"),
    ("x = { async c() { }, b: () => {", "} };"),
    ("x = { *c() { }, m() {", "}, async d() { } };"),
    ("class Q { async a() { } m() {", "} *b() { } }"),
    ("class Q { *a() { } static m() {", "} async b() { } }"),
    ("x = `${ () => {", "} }`;"),
    ("f(async () => { }, () => {", "});"),
    ("x = [function* () { }, () => {", "}];"),
    ("x = y ? () => {", "} : async () => { };"),
    ("x = async () => 1, y = () => {", "};"),
    ("var { a = () => {", "} } = x;"),
    ("[a = function () {", "}] = x;"),
    ("for (const a of [() => {", "}]) ;"),
    ("for (x = () => {", "}; ; ) ;"),
    ("if (x) ; else if (y) {", "} else z;"),
    ("try { } catch { } finally {", "}"),
    ("do {", "} while (x in y)"),
    ("switch (x) { case 1: case y in z: default:", "}"),
    ("async function q() { for await (const a of x) {", "} }"),
];

// ---------------------------------------------------------------- composed expressions
/// an expression in an expression
const AROUND: &[&str] = &[
    "%", "(%)", "a ? % : c", "a ? b : %", "% ? b : c", "a ? b : c ? % : d", "x = %", "x += %", "x.y = %", "[x] = %", "{ x } = %", "%, a", "a, %", "(%, a)", "[%]", "[a, %]", "[...%]", "f(%)", "f(a, %)", "f(...%)", "new f(%)", "new (%)", "`${ % }`", "f`${ % }`", "x[%]", "x[%].y", "(%).x", "(%)[y]", "(%)()", "(%)`a`", "{ a: % }", "({ a: % })", "{ [%]: a }", "({ [%]() { } })", "({ ...% })", "({ get [%]() { } })", "{ a = % }", "[a = %]", "({ a = % } = x)",
    "() => %", "(a) => %", "a => (%)", "a => { % }", "() => ({ a: % })", "async () => %", "async a => %", "async (a) => { % }", "(a = %) => 1", "({ a = % }) => 1", "({ [%]: a }) => 1", "async (a = %) => 1", "async (%)", "function () { % }", "function () { return % }", "function* () { % }", "async function () { % }", "function (a = %) { }", "function* (a = %) { }", "({ m() { % } })", "({ m(a = %) { } })", "({ async m() { % } })", "({ *m() { % } })", "class { m() { % } }", "class { [%]() { } }", "class { static async *m(a = %) { } }", "class extends (%) { }", "class extends % { }",
    "% in a", "a in %", "% || a", "a && %", "% + a", "a + %", "% ** a", "a ** %", "% instanceof a", "a < %", "a == % ", "-%", "!%", "typeof %", "void %", "delete %", "++%", "%++", "yield %", "yield* %", "await %", "new %", "/r/g.test(%)", "% = a", "(%) = a", "import(%)", "super[%]", "super.m(%)", "% \n in a", "f(%)(a in b)", "% ? a in b : c in d",
];
const HEADS: &[&str] = &[
    "for (%;;) ;", "for (var z = %;;) ;", "for (let z = %;;) ;", "for (const z = %;;) ;", "for (let y, z = %;;) ;", "for (let z = %, y = a in b;;) ;", "for (var y = 1, z = %, w;;) { x in y }", "for (z = %;;) ;", "for (z = %, y;;) ;", "for (z, %;;) ;", "for (;%;) ;", "for (;;%) ;", "for (a;%;) x in y;", "for (var z = % in y) ;", "for (let z of %) ;", "for (const z in %) ;", "for (var z of %) ;", "for (z of %) ;", "for (z in %) ;", "for (% of y) ;", "for (% in y) ;", "for ([%] of y) ;", "for ({ a: % } in y) ;", "for (z[%] of y) ;", "for (z[%] in y) ;", "for (f(%).z in y) ;", "for (var { z = % } = y;;) ;", "for (var { z = % } of y) ;", "for (let [z = %] in y) ;", "for (let [z = %] = y;;) ;", "for ({ z = % } of y) ;", "for ([z = %] in y) ;", "for (const { [%]: z } = y;;) ;", "for (let z = () => { % };;) ;", "for (var z = a ? b : %;;) ;",
    "let z = %;", "const z = %;", "var y, z = %;", "const { a = % } = b;", "if (%) x in y;", "do ; while (%) x in y", "switch (%) { case %: % }", "throw %", "return %", "%\nx in y", "%", "%;", "(%)", "x = %", "l: %", "export default %;", "export const z = %;", "export var z = %, y = x in w;", "with (%) ;", "class A extends (%) { }", "class A { [%]() { } }", "function g(a = %) { }", "async function g(a = %) { }", "function* g([a = %]) { }", "try { % } catch { } x in y", "var { a: %} = y", "({ a: % }) => 1", "(%) => a in b", "async (%) => a in b", "[%] = a in b", "{ % }", "if (x) %", "if (x) % \n else %", "while (%) %",
];
const LEAF: &[&str] = &["a", "a in b", "(a in b)", "a.b", "1", "/r/", "[a]", "{ a }", "{ a = 1 }", "a = b", "a => b", "() => { }", "async a => b", "async (a) => b", "async (a)", "async", "await", "yield", "await a", "yield a", "let", "this", "super.a", "super()", "new.target", "eval", "arguments", "function () { }", "class { }", "a, b", "...a", "a++", "-a", "`t`", "a ? b : c", "a ** b", "import(a)", "static", "'use strict'", "([a])", "({ a })", "(a)", "((a, b))", "a || b", "of", "get", "delete a", "a\n", "a().b", "new a", "new a()", "a`b`", "{ }", "[]", "{ a, ...b }", "[a, ...b]", "null"];
/// expressions put into each other, at some place of an expression
pub fn composed(r: &mut Rng) -> String {
    let mut t = match r.n(10) {
        0 => expression(r),
        1 | 2 => "a in b".to_string(),
        _ => LEAF[r.n(LEAF.len())].to_string(),
    };
    for _ in 0..1 + r.n(3) {
        t = put(AROUND[r.n(AROUND.len())], &t);
        if t.len() > 600 {
            break;
        }
    }
    if r.pc(60) {
        put(HEADS[r.n(HEADS.len())], &t)
    } else {
        put(PLACES[r.n(PLACES.len())], &t)
    }
}
/// the same, every entry with every other
pub fn composed_cell(i: u64, n: u64, r: &mut Rng) -> String {
    let d = [AROUND.len(), HEADS.len(), LEAF.len()];
    let c = cell(i, n, &d, r);
    put(HEADS[c[1]], &put(AROUND[c[0]], LEAF[c[2]]))
}
pub fn composed_total() -> u64 {
    total(&[AROUND.len(), HEADS.len(), LEAF.len()])
}

// ---------------------------------------------------------------- C16 words
const WORDS: &[&str] = &[
    "name", "$", "_a", "async", "await", "of", "get", "set", "static", "from", "as", "target", "meta", "constructor", "prototype", "eval",
    "arguments", "undefined", "NaN", "let", "yield", "implements", "interface", "package", "private", "protected", "public", "enum", "null",
    "true", "false", "this", "super", "new", "function", "class", "extends", "import", "export", "default", "const", "var", "if", "else", "for",
    "while", "do", "in", "instanceof", "typeof", "void", "delete", "return", "throw", "try", "catch", "finally", "switch", "case", "break",
    "continue", "debugger", "with",
];
const WORD_PLACES: &[&str] = &[
    "%", "%;", "x = %;", "% = 1;", "% += 1;", "%++;", "--%;", "f(%);", "%();", "%(x);", "%.x;", "x.%;", "x.%.y;", "x.%();", "x = { % };",
    "x = { %: 1 };", "x = { %() { } };", "x = { get %() { } };", "x = { set %(a) { } };", "x = { async %() { } };", "x = { *%() { } };",
    "x = { async *%() { } };", "x = { %, y };", "x = { % = 1 };", "({ % = 1 } = x);", "({ % } = x);", "({ a: % } = x);", "({ %: a } = x);",
    "({ ...% } = x);", "[%] = x;", "[...%] = x;", "[% = 1] = x;", "[%.x] = x;", "%: ;", "%: while (x) break %;", "%: while (x) continue %;",
    "var %;", "var % = 1;", "let %;", "let % = 1;", "const % = 1;", "let a, %;", "let [%] = x;", "let [...%] = x;", "let { % } = x;",
    "let { %: a } = x;", "let { a: % } = x;", "let { % = 1 } = x;", "let { ...% } = x;", "const { a: [%] } = x;", "var { % } = x;", "var [%] = x;",
    "var { a: % = 1 } = x;", "function %() { }", "function* %() { }", "async function %() { }", "async function* %() { }", "x = function %() { };",
    "x = function* %() { };", "x = async function %() { };", "x = async function* %() { };", "class % { }", "class % extends B { }",
    "x = class % { };", "class A extends % { }", "class A { %() { } }", "class A { static %() { } }", "class A { get %() { } }",
    "class A { static get %() { } }", "class A { set %(a) { } }", "class A { async %() { } }", "class A { *%() { } }", "class A { async *%() { } }",
    "class A { static async %() { } }", "class A { static *%() { } }", "class A { %() { } %() { } }", "class A { '%'() { } }", "class A { [%]() { } }",
    "class A extends B { static %() { } get %() { } }", "function f(%) { }", "function f(a, %) { }", "function f(...%) { }", "function f(% = 1) { }",
    "function f({ % }) { }", "function f([%]) { }", "function* f(%) { }", "async function f(%) { }", "function f(%) { 'use strict'; }",
    "x = { m(%) { } };", "x = { set m(%) { } };", "x = { *m(%) { } };", "x = { async m(%) { } };", "class A { m(%) { } }", "% => 1;", "(%) => 1;", "(%, a) => 1;",
    "(a, %) => 1;", "(...%) => 1;", "(% = 1) => 1;", "({ % }) => 1;", "({ % = 1 }) => 1;", "([%]) => 1;", "async % => 1;", "async (%) => 1;",
    "async (a, ...%) => 1;", "async ({ % }) => 1;", "async (% = 1) => 1;", "% => { };", "% => { 'use strict'; };", "() => %;", "async () => %;",
    "try { } catch (%) { }", "try { } catch ({ % }) { }", "try { } catch ([%]) { }", "for (% of x) ;", "for (% in x) ;", "for (% ;;) ;",
    "for (% = 1;;) ;", "for (%.x of x) ;", "for (%.x in x) ;", "for (var % of x) ;", "for (var % in x) ;", "for (let % of x) ;", "for (let % in x) ;",
    "for (let % = 1;;) ;", "for (const % of x) ;", "for (const % = 1;;) ;", "for (let % ;;) ;", "for (let {%} of x) ;", "for (var [%] in x) ;",
    "for (x of %) ;", "for (x in %) ;", "for (;; %) ;", "%\n%", "%\nx", "x\n%", "% x", "% 1", "x %", "(%)", "(%) = 1;", "[%]", "`${ % }`", "%`a`",
    "new %;", "new %();", "new %.x();", "new.%;", "new x.%;", "typeof %;", "delete %;", "delete %.x;", "-%;", "% + %;", "% ? % : %;", "% in x;", "x in %;",
    "%, %", "% || %", "% ** 2", "if (%) ;", "if (%) % ; else %", "while (%) ;", "do % ; while (%)", "switch (%) { case %: }", "throw %;", "with (%) ;",
    "%[0];", "%\n[0];", "%[0] = 1;", "%.%;", "% {}", "% { }\n1", "%\n{ }", "% function f() { }", "%\nfunction f() { }", "% class A { }", "async\n%", "async %",
    "async % () { }", "get % () { }", "let\n%", "let\n%\n= 1", "var\n%", "static % () { }", "yield %", "await %", "await\n%", "return %", "break %", "l: while (x) break\n%",
    "eval(%)", "x = %\n=> 1", "!% => 1", "% of x", "x = { async\n%() { } };", "class A { static\n%() { } }", "class A { get\n%() { } }", "class A { async\n%() { } }",
    "x = { get\n%() { } };", "x = { get %: 1 };", "x = { async %: 1 };", "x = { get % };", "x = { async % };", "x = { *% };", "class A { %; }", "class A { % }", "class A { get % }",
    "class A { * static %() { } }", "class A { static static %() { } }", "class A { static async *%() { } }", "class A { async get %() { } }", "class A { get async %() { } }",
    "super.%", "x = { m() { super.% } };", "x = { m() { super.%() } };", "this.%", "import.%", "import(%);",
];
const MODULE_WORD_PLACES: &[&str] = &[
    "import % from 'a';", "import { % } from 'a';", "import { % as b } from 'a';", "import { b as % } from 'a';", "import { b, % } from 'a';", "import * as % from 'a';",
    "import %, { b } from 'a';", "import %, * as b from 'a';", "import a, { % } from 'a';", "import a, * as % from 'a';", "import { a as b, % as c } from 'a';",
    "export { % } from 'a';", "export { % as b } from 'a';", "export { b as % } from 'a';", "export { % as % } from 'a';", "export { b, % as c } from 'a';", "export * from 'a'; %;", "export * as % from 'a';",
    "var b; export { b as % };", "var %; export { % };", "export { % as b };", "export { % };", "export % ;", "export % from 'a';", "export % a;", "export default %;", "export default % ()", "export default % => 1;", "export default (%);", "export default async % => 1;", "export default function %() { }",
    "export default function* %() { }", "export default async function %() { }", "export default class % { }", "export var %;", "export let % = 1;", "export const % = 1;",
    "export function %() { }", "export class % { }", "export async function %() { }", "export function* %() { }", "export let { % } = x;", "import 'a'; % ;", "import %", "import % 'a'", "import a % 'b';", "import { a % b } from 'c';",
    "import * % a from 'b';", "export * % 'b';", "export { a % b } from 'c';", "export default\n%", "export\n% a = 1",
];
/// words that can be names or more than names
const DUAL: &[&str] = &["async", "await", "of", "get", "set", "static", "from", "as", "let", "yield", "target", "constructor", "eval", "name", "new", "function", "class", "import", "export", "default", "in", "this", "super"];
const PAIR_PLACES: &[&str] = &[
    "@ %", "@\n%", "@ % ;", "@ % = 1;", "@ % => 1;", "@\n% => 1;", "@ (%) => 1;", "@ (%);", "(@ %) => 1;", "(@, %) => 1;", "x = @ %;", "@ % () { }", "@ % { }", "@ %: ;", "@: %: ;", "@ % of x;", "@ [%] = x;", "@ {%} = x;", "@\n[%] = x;", "@.%;",
    "@.% = 1;", "@[%];", "@, %;", "@ = %;", "@ = % => 1;", "for (@ % of x) ;", "for (@ % in x) ;", "for (@ of %) ;", "for (@ in %) ;", "for (@ %;;) ;", "for (@ % = 1;;) ;", "for (@ = %;;) ;", "for (@ = % of x) ;", "for (@ [%] of x) ;", "for (@ {%} of x) ;",
    "for await (@ % of x) ;", "for await (@ of %) ;", "for (@.% of x) ;", "for (@.% in x) ;", "for (@(%) in x) ;", "for ((@) of %) ;", "for ((@) in %) ;",
    "class A { @ %() { } }", "class A { @\n%() { } }", "class A { static @ %() { } }", "class A { @ *%() { } }", "class A { static @ *%() { } }", "class A { @ [%]() { } }", "class A { @ '%'() { } }", "class A { @ 1() { } %() { } }", "class A { @() { } %() { } }", "class A { @; % }", "class A { async @ %() { } }",
    "class A { get @() { } set %(a) { } }", "class @ extends % { }", "class @ % { }", "x = class @ { %() { } };",
    "x = { @ %() { } };", "x = { @\n%() { } };", "x = { @ *%() { } };", "x = { @ [%]() { } };", "x = { @ '%'() { } };", "x = { @ 1() { }, % };", "x = { @: % };", "x = { @, % };", "x = { @ % };", "x = { @ %: 1 };", "x = { @ % = 1 };", "x = { async @ %() { } };", "x = { *@ %() { } };", "x = { @: 1, % };", "x = { @() { }, % };", "({ @: % } = x);", "({ @, % } = x);", "({ @: % = 1 } = x);", "({ @ = % } = x);", "({ @: { % } } = x);", "({ @: % }) => 1;", "({ @ = % }) => 1;",
    "let { @: % } = x;", "let { @, % } = x;", "let { @ = % } = x;", "let [@, %] = x;", "var { @: { % } } = x;", "let @ = %;", "let @, %;", "let @\n%", "var @ = %, b;", "const @ = %;", "var @\n%", "function @(%) { }", "function @() { % }", "function* @(%) { }", "async function @(%) { }", "x = function @(%) { };", "x = function* @() { % };", "x = async function @() { % };", "function f(@ = %) { }", "function f(@, %) { }", "function f(@ %) { }", "function f(@) { % }", "x = { m(@) { % } };",
    "@ => %;", "(@) => %;", "(@ = %) => 1;", "(@ = % => 1) => 1;", "async @ => %;", "async (@ = %) => 1;", "async (@, %) => 1;", "async (@, %);", "async\n@ => %;", "(@) => { % };", "() => @ %;", "@ ? % : 1;", "x ? @ : % => 1;", "x ? (@) : %;", "x ? (@) : (%) => 1;", "@ + %;", "@ in %;", "@ instanceof %;", "@ ** %;", "-@ ** %;", "typeof @ %;", "new @ %;", "new @.%;", "new @(%);", "new @().%;", "delete @.%;", "@ ++ %", "@ ++\n%", "@\n++ %", "@ `%`;", "@ `${ % }`;", "@`${ % }`;", "if (@) %", "if (@) % ; else @", "if (x) @ % ;", "while (@) %", "do @ ; while (%)", "do @\nwhile (%)", "@: while (x) break %;", "@: while (x) continue %;", "@: function %() { }", "@: % = 1;", "try { @ } catch (%) { }", "try { @ } catch { % }", "switch (@) { case %: }", "switch (x) { case @: case %: }", "switch (x) { case @ %: }", "throw @ %;", "@ % function f() { }", "@ function %() { }", "@ function* %() { }", "@\nfunction %() { }", "@ class % { }", "(@ function %() { });", "(@ % function () { });", "(@ class % { });", "@ var %;", "@ let %;", "@; let %;", "@ 1 %", "@\n1\n%", "with (@) %", "@ debugger\n%", "yield @ %", "await @ %", "(@ %)", "[@ %]", "[@, %] = x;", "[@ = %] = x;", "[...@.%] = x;", "f(@ %);", "f(@, ...%);", "f(@ => %);", "f(async @ => %);", "import(@).%;", "import(@ %);",
    "'use strict'; @ %", "'use strict'; @ = %;", "'use strict'; ({ @: % });", "'use strict'; var { @: % } = x;", "'use strict'; @ => %;",
];
const MODULE_PAIR_PLACES: &[&str] = &[
    "import @ % from 'a';", "import { @ % } from 'a';", "import { @ as % } from 'a';", "import { @, % } from 'a';", "import @, { % } from 'a';", "import @, * as % from 'a';", "import * @ % from 'a';", "import * as @ % 'a';", "import @ from % ;", "import { @ as % as as } from 'a';",
    "import { @ as as } from 'a';", "export { @ as % } from 'a';", "export { @, % } from 'a';", "export { @ % } from 'a';", "export @ %;", "export @ % = 1;", "export @ %() { }", "export @ function %() { }", "export @ class % { }", "export default @ %;", "export default @ %() { }", "export default @ function %() { }", "export default @ => %;", "export default async @ => %;", "export default @\n%", "export default class @ extends % { }", "export * @ % ;", "export * as @ from 'a'; %", "var @; export { @ as % };", "@; export { name as % };", "export let @ = %;", "export let { @: % } = x;",
];

fn c16(cfg: &Cfg, o: &mut Obs) -> Report {
    let modes = CTXS.len() + 8;
    // the last ones are modules
    let ctx = |k: usize| -> ((&str, &str), bool) {
        if k < CTXS.len() {
            (CTXS[k], false)
        } else {
            (CTXS[[0, 2, 3, 4, 8, 9, 13, 22][k - CTXS.len()]], true)
        }
    };
    let d = [WORDS.len(), WORD_PLACES.len(), modes];
    let n = cfg.n(150_000, total(&d));
    diff(cfg, o, "places", n, |r, i| {
        let c = cell(i, n, &d, r);
        let (cx, m) = ctx(c[2]);
        dt(in_ctx(cx, &put(WORD_PLACES[c[1]], WORDS[c[0]])), m, "place")
    });
    // every word in every place of a plain script, a module and a strict script
    let d = [WORDS.len(), WORD_PLACES.len(), 3];
    diff(cfg, o, "plain-places", total(&d), |r, i| {
        let c = cell(i, total(&d), &d, r);
        dt(in_ctx(CTXS[(c[2] == 1) as usize], &put(WORD_PLACES[c[1]], WORDS[c[0]])), c[2] == 2, "plain")
    });
    let d = [WORDS.len(), MODULE_WORD_PLACES.len()];
    diff(cfg, o, "module-places", total(&d), |r, i| {
        let c = cell(i, total(&d), &d, r);
        dt(put(MODULE_WORD_PLACES[c[1]], WORDS[c[0]]), true, "module")
    });
    let d = [DUAL.len(), DUAL.len(), PAIR_PLACES.len(), modes];
    let n = cfg.n(120_000, 1_600_000);
    diff(cfg, o, "pairs", n, |r, i| {
        let mut c = cell(i, n, &d, r);
        if r.pc(40) {
            c[3] = 0;
        }
        let (cx, m) = ctx(c[3]);
        dt(in_ctx(cx, &put(PAIR_PLACES[c[2]], DUAL[c[0]]).replace('@', DUAL[c[1]])), m, "pair")
    });
    let d = [DUAL.len(), DUAL.len(), MODULE_PAIR_PLACES.len()];
    diff(cfg, o, "module-pairs", total(&d), |r, i| {
        let c = cell(i, total(&d), &d, r);
        dt(put(MODULE_PAIR_PLACES[c[2]], DUAL[c[0]]).replace('@', DUAL[c[1]]), true, "module-pair")
    });
    // sequences of such words and a few tokens
    const SEP: &[&str] = &["=>", "(", ")", ",", "=", ".", ":", ";", "[", "]", "{", "}", "*", "...", "`a`", "1", "'a'"];
    diff(cfg, o, "sequences", cfg.n(60_000, 1_000_000), |r, i| {
        let mut s = String::new();
        for _ in 0..2 + r.n(5) {
            if r.pc(62) {
                s.push_str(DUAL[r.n(DUAL.len())]);
            } else {
                s.push_str(SEP[r.n(SEP.len())]);
            }
            s.push(if r.pc(12) { '\n' } else { ' ' });
        }
        let (cx, m) = ctx(r.n(modes));
        let place = ["%", "x = { % };", "class A { % }", "(% => 1)", "for (% ;;) ;", "for (% of x) ;", "function f(%) { }", "let % = 1;", "({ % } = x);", "import { % } from 'a';", "f(%)"][(i % 11) as usize];
        dt(in_ctx(cx, &put(place, &s)), m, "sequence")
    });
    diff(cfg, o, "crowds", cfg.n(60_000, 1_000_000), |r, _| {
        let leaf = if r.pc(60) { put(WORD_PLACES[r.n(WORD_PLACES.len())], WORDS[r.n(WORDS.len())]) } else { put(PAIR_PLACES[r.n(PAIR_PLACES.len())], DUAL[r.n(DUAL.len())]).replace('@', DUAL[r.n(DUAL.len())]) };
        dt(crowd(r, leaf), r.pc(6), "crowd")
    });
    rep(
        "a case counts when both parsers gave a verdict on a word (or two, or a few) at a place of the table in a surrounding of the table, and verdict and tree agree; distinct by text",
        &["both.accept", "both.reject", "crowd", "place", "plain", "module", "pair", "module-pair", "sequence"],
        100_000,
    )
}

// ---------------------------------------------------------------- C17 strict code
const STRICT_SENSITIVE: &[&str] = &[
    "with (x) ;", "with (x) { }", "let = 1;", "x = let;", "let\nx", "yield = 1;", "x = yield;", "yield: ;", "static = 1;", "x = static;", "interface: ;", "implements => 1;", "(package) => 1;", "var private;", "let protected;", "const public = 1;",
    "function interface() { }", "x = function static() { };", "class package { }", "x = { implements };", "x = { implements: 1 };", "x.implements;", "({ private } = x);", "({ a: private } = x);", "[public] = x;", "let { static } = x;", "var [yield] = x;",
    "delete x;", "delete (x);", "delete x.y;", "delete ((x));", "eval = 1;", "arguments++;", "--eval;", "arguments += 1;", "(eval) = 1;", "[eval] = x;", "({ eval } = x);", "({ a: arguments } = x);", "({ eval = 1 } = x);", "[...eval] = x;",
    "var eval;", "let arguments = 1;", "let { eval } = x;", "var [arguments] = x;", "function eval() { }", "x = function arguments() { };", "function f(eval) { }", "x = function (a, arguments) { };", "(eval) => 1;", "arguments => 1;", "({ eval }) => 1;", "async (eval) => 1;", "async arguments => 1;", "(...eval) => 1;", "(a = 1, eval) => 1;",
    "x = { m(eval) { } };", "x = { set m(eval) { } };", "x = { async m(arguments) { } };", "x = { *m(eval) { } };", "class A { m(eval) { } }", "class eval { }", "x = class arguments { };", "try { } catch (eval) { }", "try { } catch ({ arguments }) { }", "for (eval of x) ;", "for (eval in x) ;", "for (var eval of x) ;", "for (let arguments in x) ;", "for (eval = 1;;) ;", "eval(x);", "arguments[0];", "eval.x = 1;", "x = eval;", "x = arguments;", "[eval.x] = y;",
    "if (x) function f() { }", "if (x) ; else function f() { }", "l: function f() { }", "l: m: function f() { }", "{ function f() { } }", "for (var a = 1 in x) ;", "for (var a = 1, b in x) ;", "for (var [a] = 1 in x) ;", "for (let in x) ;", "for (let = 1;;) ;", "for (let;;) ;", "for (let.x in x) ;", "for (let.x;;) ;", "for (let of of x) ;", "while (x) function f() { }",
    "function f(a = 1) { 'use strict'; }", "function f({ a }) { 'use strict'; }", "(a = 1) => { 'use strict'; };", "x = { m(...a) { 'use strict'; } };", "function f(a) { 'use strict'; }", "(a, b) => { 'use strict'; };", "x = { set m([a]) { 'use strict'; } };",
    "function f(eval) { 'use strict'; }", "function eval() { 'use strict'; }", "x = function arguments() { 'use strict'; };", "(eval) => { 'use strict'; };", "eval => { 'use strict'; };", "async (arguments) => { 'use strict'; };", "function f(static) { 'use strict'; }", "function static() { 'use strict'; }", "x = function yield() { 'use strict'; };", "x = { m(interface) { 'use strict'; } };", "x = { set m(eval) { 'use strict'; } };", "function f(let) { 'use strict'; }", "function f(yield) { 'use strict'; }", "yield => { 'use strict'; };",
    "class let { }", "class static { }", "class yield { }", "x = class implements { };", "class A extends let { }", "class A { m() { with (x) ; } }", "class A extends (function () { with (x) ; }) { }", "class A { [delete x]() { } }", "class A { m(a = delete x) { } }", "class A { static m() { let = 1; } }",
    "await = 1;", "x = await;", "enum = 1;", "a = 1;", "x = { __proto__: 1 };", "debugger;", "this;",
];
/// ways to become strict, nearly strict, or not at all, before the snippet
const BEGIN: &[&str] = &[
    "", "'use strict';", "\"use strict\";", "'use strict'\n", "'a'; 'use strict';", "'use strict'; 'a';", "'a'\n'b'\n'use strict'\n", "('use strict');", "'use strict' + 1;", "'use strict', 1;", "'use strict'.x;", "'use strict'\n.x;", "'use strict'\n+ 1;", "'use strict'\n(x);", "'use strict'\n[x];", "'use strict' ? 1 : 2;", "'use strict'\n`a`;", "'use strict' = 1;",
    "; 'use strict';", "x; 'use strict';", "{ 'use strict'; }", "{ } 'use strict';", "var a; 'use strict';", "'use\tstrict';", "'use strict ';", "' use strict';", "'Use strict';", "'use strict'; 'use strict';", "'use asm';", "`use strict`;", "if (x) 'use strict';", "l: 'use strict';", "x = 'use strict';", "'a' + 'b'; 'use strict';", "1; 'use strict';", "'use strict' in x;", "'use strict'; x;", "!'use strict';", "'a'.b; 'use strict';",
    "function g() { 'use strict'; }", "x = function () { 'use strict'; };", "x = () => { 'use strict'; };", "x = { m() { 'use strict'; } };", "x = { get m() { 'use strict'; } };", "x = { set m(a) { 'use strict'; } };", "x = { *m() { 'use strict'; } };", "x = { async m() { 'use strict'; } };", "class B { }", "x = class { };", "class B extends C { m() { } }", "class B { m() { 'use strict'; } }", "async function g() { 'use strict'; }", "function* g() { 'use strict'; }", "x = async () => { 'use strict'; };", "x = a => { 'use strict'; };", "(function () { 'use strict'; })();", "f(function () { 'use strict'; }, class { });", "x = class extends (class { }) { };", "x = `${ class { } }`;", "x = [class { }, function () { 'use strict'; }];", "function g(a = function () { 'use strict'; }) { }", "x = (a = class { }) => 1;", "x = async (a = class { }) => 1;", "x = { [class { }]: 1 };", "for (x of class { }) ;", "switch (class { }) { }",
];
/// bodies that hold the beginning and the snippet
const BODIES: &[(&str, &str)] = &[
    ("", ""),
    ("function f() {", "}"),
    ("x = function () {", "};"),
    ("x = () => {", "};"),
    ("x = async () => {", "};"),
    ("x = a => {", "};"),
    ("x = { m() {", "} };"),
    ("x = { get m() {", "} };"),
    ("x = { set m(a) {", "} };"),
    ("x = { *m() {", "} };"),
    ("x = { async m() {", "} };"),
    ("function* f() {", "}"),
    ("async function f() {", "}"),
    ("function f(a, b) {", "}"),
    ("{", "}"),
    ("if (x) {", "}"),
    ("try {", "} finally { }"),
    ("switch (x) { case 1:", "}"),
    ("class A { m() {", "} }"),
    ("(function () {", "})();"),
    ("f(function () {", "});"),
    ("function g() { 'use strict'; } function f() {", "}"),
    ("function f() { function g() {", "} }"),
    ("x = { a: function () {", "} };"),
];
/// where the snippet stands in what comes behind the beginning
const DEEP: &[(&str, &str)] = &[
    ("", ""),
    ("{", "}"),
    ("if (x) {", "}"),
    ("function g() {", "}"),
    ("x = () => {", "};"),
    ("x = async () => {", "};"),
    ("x = function () {", "};"),
    ("x = { m() {", "} };"),
    ("x = { get m() {", "} };"),
    ("class A { m() {", "} }"),
    ("class A { } {", "}"),
    ("x = class { }; {", "}"),
    ("for (;;) {", "}"),
    ("try { } catch (e) {", "}"),
    ("function h() { 'use strict'; } {", "}"),
    ("x = function () { 'use strict'; }; function g() {", "}"),
    ("x = { m() { 'use strict'; }, n() {", "} };"),
    ("x = (a = function () { 'use strict'; }) => {", "};"),
    ("function g(a = class { }) {", "}"),
    ("switch (x) { case class { }:", "}"),
    ("class A extends (class { m() { } }) { } {", "}"),
    ("l: {", "}"),
];

fn c17(cfg: &Cfg, o: &mut Obs) -> Report {
    let d = [STRICT_SENSITIVE.len(), BEGIN.len(), BODIES.len()];
    let n = cfg.n(100_000, total(&d));
    diff(cfg, o, "beginnings", n, |r, i| {
        let c = cell(i, n, &d, r);
        let b = BODIES[c[2]];
        dt(format!("{}{} {}\n{}", b.0, BEGIN[c[1]], STRICT_SENSITIVE[c[0]], b.1), false, "beginning")
    });
    let d = [STRICT_SENSITIVE.len(), DEEP.len(), 6, BODIES.len()];
    let n = cfg.n(60_000, total(&d));
    diff(cfg, o, "placements", n, |r, i| {
        let c = cell(i, n, &d, r);
        let b = BODIES[c[3]];
        let p = DEEP[c[1]];
        let strict = ["", "'use strict';"][c[2] % 2];
        let s = STRICT_SENSITIVE[c[0]];
        let t = match c[2] / 2 {
            // inside of the inner one, behind it, behind the body
            0 => format!("{}{}\n{} {}\n{}\n{}", b.0, strict, p.0, s, p.1, b.1),
            1 => format!("{}{}\n{} {}\n{} {}", b.0, strict, p.0, p.1, s, b.1),
            _ => format!("{}{}\n{} {}\n{}\n{}", b.0, strict, p.0, p.1, b.1, s),
        };
        dt(t, r.pc(6), "placement")
    });
    // the same in modules, and deeper at random
    let d = [STRICT_SENSITIVE.len(), DEEP.len()];
    diff(cfg, o, "modules", total(&d), |r, i| {
        let c = cell(i, total(&d), &d, r);
        let p = DEEP[c[1]];
        dt(format!("{} {}\n{}", p.0, STRICT_SENSITIVE[c[0]], p.1), true, "module")
    });
    diff(cfg, o, "nested", cfg.n(60_000, 1_000_000), |r, _| {
        let mut t = STRICT_SENSITIVE[r.n(STRICT_SENSITIVE.len())].to_string();
        for _ in 0..2 + r.n(4) {
            let (a, b) = if r.pc(50) { BODIES[r.n(BODIES.len())] } else { DEEP[r.n(DEEP.len())] };
            let s = if r.pc(22) { BEGIN[r.n(BEGIN.len())] } else { "" };
            if r.pc(20) {
                t = format!("{} {}\n{}\n{}", a, s, b, t);
            } else {
                t = format!("{} {} {}\n{}", a, s, t, b);
            }
        }
        dt(t, r.pc(8), "nested")
    });
    diff(cfg, o, "crowds", cfg.n(60_000, 1_000_000), |r, _| {
        let leaf = STRICT_SENSITIVE[r.n(STRICT_SENSITIVE.len())].to_string();
        dt(crowd(r, leaf), r.pc(6), "crowd")
    });
    rep(
        "a case counts when both parsers gave a verdict on a snippet whose meaning depends on strictness, behind or inside of a way to become strict or not, and verdict and tree agree; distinct by text",
        &["both.accept", "both.reject", "crowd", "beginning", "placement", "module", "nested"],
        100_000,
    )
}

// ---------------------------------------------------------------- C21 jumps
const JUMP_IN: &[(&str, &str)] = &[
    ("while (x) ", ""),
    ("do ", "\nwhile (x);"),
    ("for (;;) ", ""),
    ("for (a in x) ", ""),
    ("for (let a of x) ", ""),
    ("for (var a in x) {", "}"),
    ("switch (x) { case 1: ", "}"),
    ("switch (x) { default: ", "}"),
    ("L: ", ""),
    ("M: ", ""),
    ("L: M: ", ""),
    ("L: { ", "}"),
    ("{ ", "}"),
    ("if (x) ", ""),
    ("if (x) ; else ", ""),
    ("try { ", "} finally { }"),
    ("try { } catch (e) { ", "}"),
    ("with (x) ", ""),
    ("function f() { ", "}"),
    ("async function f() { for await (a of x) ", "}"),
    ("x = function () { ", "};"),
    ("x = () => { ", "};"),
    ("x = async a => { ", "};"),
    ("x = { m() { ", "} };"),
    ("class A { m() { ", "} }"),
    ("L: while (x) { ", "}"),
    ("M: for (;;) ", ""),
    ("while (x) { x = () => { }; ", "}"),
    ("L: { } ", ""),
    ("while (x) ; ", ""),
    ("switch (x) { case 1: while (x) ; ", "}"),
    ("L: for (;;) { function g() { while (x) break; } ", "}"),
    ("for (x of function () { ", "}) ;"),
    ("if (x) { L: x; } ", ""),
    ("for (const a of x) { switch (x) { } ", "}"),
];
const JUMPS: &[&str] = &[
    "break;", "continue;", "break L;", "continue L;", "break M;", "continue M;", "break\nL;", "continue\nM;", "return;", "return x;", "return\nx;", "L: x;", "L: while (x) continue L;", "M: break M;", "L: continue L;", "{ break L }", "if (x) continue", "break N;",
    "L: M: while (x) { continue L; }", "L: { M: while (x) { continue M; break L; } }", "L: if (x) break L;", "L: do continue L; while (x)",
];

fn c21(cfg: &Cfg, o: &mut Obs) -> Report {
    let w = JUMP_IN.len();
    let nest = |ks: &[usize], leaf: &str| -> String {
        let mut t = leaf.to_string();
        for k in ks {
            t = format!("{}{}\n{}", JUMP_IN[*k].0, t, JUMP_IN[*k].1);
        }
        t
    };
    let d = [JUMPS.len(), w, w];
    diff(cfg, o, "two", total(&d), |r, i| {
        let c = cell(i, total(&d), &d, r);
        dt(nest(&c[1..], JUMPS[c[0]]), false, "two")
    });
    let d = [JUMPS.len(), w, w, w];
    let n = cfg.n(80_000, total(&d));
    diff(cfg, o, "three", n, |r, i| {
        let c = cell(i, n, &d, r);
        dt(nest(&c[1..], JUMPS[c[0]]), r.pc(10), "three")
    });
    // trees of statements with jumps at any place
    diff(cfg, o, "trees", cfg.n(80_000, 1_500_000), |r, _| {
        fn tree(r: &mut Rng, d: usize, label: &mut usize) -> String {
            if d == 0 || r.pc(18) {
                return match r.n(4) {
                    0 => "x;".into(),
                    _ => {
                        let j = ["break", "continue", "break", "continue", "return"][r.n(5)];
                        if j != "return" && r.pc(55) {
                            let k = if *label > 0 && r.pc(75) { r.n(*label) } else { r.n(4) };
                            format!("{}{}L{};", j, if r.pc(6) { "\n" } else { " " }, k)
                        } else {
                            format!("{};", j)
                        }
                    }
                };
            }
            if r.pc(30) {
                let k = *label;
                let k = if r.pc(4) && k > 0 { k - 1 } else { k };
                *label = k + 1;
                let s = format!("L{}: {}", k, tree(r, d - 1, label));
                if r.pc(85) {
                    *label = label.saturating_sub(1);
                }
                return s;
            }
            let (a, b) = JUMP_IN[r.n(8)];
            match r.n(10) {
                0..=3 => format!("{}{}\n{}", a, tree(r, d - 1, label), b),
                4..=6 => {
                    let n = 2 + r.n(2);
                    let v: Vec<String> = (0..n).map(|_| tree(r, d - 1, label)).collect();
                    format!("{{ {} }}", v.join("\n"))
                }
                7 => format!("if (x) {}\nelse {}", tree(r, d - 1, label), tree(r, d - 1, label)),
                8 => format!("switch (x) {{ case 1: {}\ncase 2: {} }}", tree(r, d - 1, label), tree(r, d - 1, label)),
                _ => {
                    let (a, b) = JUMP_IN[18 + r.n(7)];
                    format!("{}{}\n{}", a, tree(r, d - 1, label), b)
                }
            }
        }
        let n = 1 + r.n(3);
        let depth = 3 + r.n(4);
        let mut l = 0;
        let v: Vec<String> = (0..n).map(|_| tree(r, depth, &mut l)).collect();
        let t = v.join("\n");
        dt(if r.pc(60) { format!("function f() {{ {} }}", t) } else { t }, r.pc(5), "tree")
    });
    diff(cfg, o, "crowds", cfg.n(60_000, 1_000_000), |r, _| {
        let leaf = JUMPS[r.n(JUMPS.len())].to_string();
        dt(crowd(r, leaf), r.pc(6), "crowd")
    });
    rep(
        "a case counts when both parsers gave a verdict on a jump or label inside of nested loops, switches, labels, blocks and functions, and verdict and tree agree; distinct by text",
        &["both.accept", "both.reject", "crowd", "two", "three", "tree"],
        60_000,
    )
}

// ---------------------------------------------------------------- C22 yield and await
const YA: &[&str] = &[
    "yield", "yield x", "yield* x", "yield\nx", "yield\n* x", "yield yield", "yield yield x", "yield* yield", "(yield)", "yield + 1", "yield ? 1 : 2", "yield, 1", "yield [x]", "yield (x)", "yield { }", "yield => 1", "(yield) => 1", "async yield => 1", "yield in x", "yield x in y", "yield x ? y : z",
    "await x", "await", "await\nx", "await await x", "-await x", "await -x", "await x ** 2", "await x.y()", "await (x)", "await [x]", "(await x)", "(await)", "await + 1", "await => 1", "(await) => 1", "async await => 1", "async (await) => 1", "await x ? y : z", "!await x", "new await x", "await new x", "typeof await x", "await x++", "(await x).y", "await `a`",
    "yield await x", "await yield", "await (yield x)", "async x => await x", "async () => await x", "() => await x", "() => { await x }", "() => yield", "() => { yield x }", "async () => { yield x }", "x => yield", "function () { yield x }", "function* () { yield x }", "function* () { await x }", "async function () { await x }", "async function () { yield x }", "async function* () { yield await x }", "function* () { function g() { yield x } }", "async function () { function g() { await x } }",
    "function yield() { }", "function* yield() { }", "function await() { }", "async function await() { }", "async function yield() { }", "class yield { }", "class await { }", "{ yield }", "{ await }", "{ yield: 1, await: 2 }", "{ yield() { }, await() { } }", "{ yield = 1 } = x", "{ await = 1 } = x", "[yield] = x", "[await] = x", "x.yield", "x.await", "yield.x", "await.x", "yield()", "await()", "yield = 1", "await = 1", "yield++", "++await", "yield`a`",
    "{ m() { yield x } }", "{ *m() { yield x } }", "{ async m() { await x } }", "{ async m() { yield x } }", "{ get m() { yield x } }", "{ set m(a) { await x } }", "{ [yield]: 1 }", "{ [await x]: 1 }", "{ *m(a = yield) { } }", "{ async m(a = await x) { } }", "{ m(a = yield) { } }", "{ m(a = await) { } }", "class { *m() { yield } }", "class { async m() { await x } }", "class { [yield]() { } }", "class { [await x]() { } }", "class extends (yield) { }", "class extends (await x) { }", "class { m(a = await x) { } }",
    "(a = yield) => 1", "(a = await x) => 1", "async (a = yield) => 1", "async (a = await x) => 1", "(a = function* () { yield }) => 1", "async (a = async () => await x) => 1", "function* (a = yield) { }", "async function (a = await x) { }", "function (a = yield) { }", "function (a = await) { }", "function* (a = function () { yield }) { }", "function* (yield) { }", "async function (await) { }", "`${ yield }`", "`${ await x }`", "((yield), yield x)", "[yield, yield x]", "f(yield, yield x)", "f(await x, ...await y)",
    "yield async x => await x", "async x => { yield }", "async (x = yield => 1) => 1", "async (x = await => 1) => 1", "(x = async (await) => 1) => 1", "async (x) => async (y = await x) => 1", "(yield = 1) => 1", "({ yield }) => 1", "({ await }) => 1", "({ a: await }) => 1", "async ({ await }) => 1", "async ([yield]) => 1", "(...await) => 1",
];
const YA_STMT: &[&str] = &[
    "for await (x of y) ;", "for await (let x of y) ;", "for await (var x of y) { }", "for await (const [x] of y) ;", "for await (x.y of z) ;", "for await (x in y) ;", "for await (;;) ;", "for await (let x = 1;;) ;", "for await (async of x) ;", "for await (x of y, z) ;", "for await ([x] of y) ;", "for await ({ x } of y) ;", "for (await of x) ;", "for (await x of y) ;", "for (yield of x) ;", "for (yield x of y) ;", "for (x of yield) ;", "for (x of yield y) ;", "for (x in yield) ;", "for (x of await y) ;", "for (x in await y) ;", "for (await of of x) ;", "for (let await of x) ;", "for (let yield of x) ;", "for (var x = yield in y) ;", "for (var x = await y;;) ;", "for\nawait (x of y) ;", "for await\n(x of y) ;",
    "var yield;", "var await;", "let yield;", "let await;", "const yield = 1;", "const await = 1;", "let { yield } = x;", "var { await } = x;", "let [await] = x;", "yield: ;", "await: ;", "yield: while (x) break yield;", "await: while (x) continue await;", "function yield() { }", "function* yield() { }", "function await() { }", "async function await() { }", "async function yield() { }", "async function* await() { }", "class await { }", "class yield { }", "try { } catch (yield) { }", "try { } catch (await) { }", "try { } catch ({ await }) { }", "return yield;", "return await x;", "return yield x;", "throw yield;", "throw await x;", "if (yield) yield; else yield x;", "if (await x) await x; else await x;", "while (yield) yield;", "do yield; while (yield)", "do await x; while (await x)", "switch (yield) { case yield: yield; default: yield }", "switch (await x) { case await x: await x }", "with (yield) yield;", "with (await x) await x;", "l: yield;", "l: await x;", "yield\nyield\nyield", "await x\nawait x", "yield; await x;", "export default yield;", "export default await;", "export default await x;", "export default yield => 1;", "export { await };", "import await from 'a';", "import { a as yield } from 'a';",
    "function f(yield) { }", "function f(await) { }", "function* f(yield) { }", "async function f(await) { }", "function f(a = yield) { }", "function f(a = await) { }", "function* f(a = yield) { }", "function* f(a = yield x) { }", "async function f(a = await x) { }", "async function f(a = await) { }", "function* f() { yield }", "async function f() { await x }", "function* f() { await x }", "async function f() { yield x }", "function* f() { function* yield() { } }", "async function f() { async function await() { } }", "function* f() { x = function yield() { } }", "async function f() { x = function await() { } }", "function* f() { x = function* yield() { } }", "async function f() { x = async function await() { } }",
];

fn c22(cfg: &Cfg, o: &mut Obs) -> Report {
    let d = [YA.len(), PLACES.len(), CTXS.len() * 2];
    let n = cfg.n(170_000, total(&d));
    diff(cfg, o, "expressions", n, |r, i| {
        let c = cell(i, n, &d, r);
        let module = c[2] >= CTXS.len() && c[2] % 3 == 0;
        dt(in_ctx(CTXS[c[2] % CTXS.len()], &put(PLACES[c[1]], YA[c[0]])), module, "expression")
    });
    let d = [YA.len(), PLACES.len(), 5];
    let n = cfg.n(60_000, total(&d));
    diff(cfg, o, "plain-expressions", n, |r, i| {
        let c = cell(i, n, &d, r);
        dt(in_ctx(CTXS[[0, 3, 4, 5, 0][c[2]]], &put(PLACES[c[1]], YA[c[0]])), c[2] == 4, "plain-expression")
    });
    let d = [YA_STMT.len(), CTXS.len(), 2];
    diff(cfg, o, "statements", total(&d), |r, i| {
        let c = cell(i, total(&d), &d, r);
        dt(in_ctx(CTXS[c[1]], YA_STMT[c[0]]), c[2] == 1, "statement")
    });
    // an expression in two places in two surroundings
    diff(cfg, o, "nested", cfg.n(80_000, 1_500_000), |r, _| {
        let mut t = if r.pc(25) { YA_STMT[r.n(YA_STMT.len())].to_string() } else { put(PLACES[r.n(PLACES.len())], YA[r.n(YA.len())]) };
        for _ in 0..1 + r.n(3) {
            t = in_ctx(CTXS[r.n(CTXS.len())], &t);
            if r.pc(25) {
                // something with the other meaning next to it
                let y = YA_STMT[r.n(YA_STMT.len())];
                t = if r.pc(50) { format!("{}\n{}", t, y) } else { format!("{}\n{}", y, t) };
            }
        }
        dt(t, r.pc(12), "nested")
    });
    diff(cfg, o, "crowds", cfg.n(80_000, 1_200_000), |r, _| {
        let leaf = if r.pc(30) { YA_STMT[r.n(YA_STMT.len())].to_string() } else { put(PLACES[r.n(PLACES.len())], YA[r.n(YA.len())]) };
        dt(crowd(r, leaf), r.pc(6), "crowd")
    });
    rep(
        "a case counts when both parsers gave a verdict on a use of yield or await at a place of the table in a surrounding of the table, and verdict and tree agree; distinct by text",
        &["both.accept", "both.reject", "crowd", "expression", "plain-expression", "statement", "nested"],
        100_000,
    )
}

// ---------------------------------------------------------------- C23 targets
const FORMS: &[&str] = &[
    "a", "a.b", "a[0]", "a.b.c", "a().b", "a`b`.c", "this.a", "new a().b", "new a.b", "new a", "new a()", "a()", "a`b`", "this", "1", "'a'", "null", "true", "`a`", "`a${ b }`", "[]", "[a]", "[a, b]", "[, a]", "[a, ]", "[a.b]", "[a()]", "[1]", "[this]", "[a = 1]", "[a.b = 1]", "[a += 1]", "[(a)]", "[(a.b)]", "[(a = 1)]", "[[a]]", "[[a] = 1]", "[([a])]", "[{ a }]", "[({ a })]", "[...a]", "[...a.b]", "[...[a]]", "[...{ a }]", "[...a, b]", "[...a, ]", "[...a = 1]", "[...(a)]", "[...([a])]", "[a, ...b]", "[a + b]", "[function () { }]", "[a => 1]", "[a, , b]", "[...a()]",
    "{}", "{ a }", "{ a, b }", "{ a, }", "{ a: b }", "{ a: b.c }", "{ a: b[0] }", "{ a: b() }", "{ a: 1 }", "{ a: b = 1 }", "{ a: b.c = 1 }", "{ a: b += 1 }", "{ a: (b) }", "{ a: (b.c) }", "{ a: (b = 1) }", "{ a: [b] }", "{ a: ([b]) }", "{ a: { b } }", "{ a: { b = 1 } }", "{ a: ({ b }) }", "{ a = 1 }", "{ a = 1, b }", "{ a: { b } = 1 }", "{ [a]: b }", "{ [a]: b = 1 }", "{ 'a': b }", "{ 1: b }", "{ a() { } }", "{ get a() { } }", "{ set a(b) { } }", "{ async a() { } }", "{ *a() { } }", "{ ...a }", "{ ...a.b }", "{ ...[a] }", "{ ...{ a } }", "{ ...a, b }", "{ ...a, }", "{ ...a = 1 }", "{ ...(a) }", "{ ...({ a }) }", "{ a, ...b }", "{ ...a() }", "{ a: this }", "{ a: a => 1 }", "{ __proto__: a }", "{ __proto__: a, __proto__: b }", "{ a: 'b' }", "{ a: -b }", "{ a: b.c() }", "{ eval }", "{ a: eval }", "[arguments]",
    "(a)", "((a))", "(a.b)", "(a[0])", "(a())", "([a])", "({ a })", "(([a]))", "({ a: 1 })", "(a = 1)", "(a, b)", "(1)", "(this)", "(a => 1)", "(a + b)", "({ a = 1 })",
    "function () { }", "function a() { }", "class { }", "class a { }", "a => 1", "(a) => 1", "async a => 1", "() => { }", "async () => 1", "a + b", "a || b", "a ** b", "-a", "!a", "typeof a", "void a", "delete a.b", "a++", "--a", "a = 1", "a += 1", "a = b = 1", "[a] = 1", "{ a } = 1", "a ? b : c", "a, b", "yield", "await", "yield a", "await a", "new.target", "import(a)", "import(a).b", "super", "super.a", "super[0]", "super()", "eval", "arguments", "let", "async", "async()", "async(a)", "async.a", "(async)", "static", "eval.a", "arguments[0]", "(eval)", "[a].b", "[a][0]", "{ a }.b", "{ a = 1 }.b", "[{ a = 1 }].b", "[{ a = 1 }]", "[...{ a = 1 }]", "f({ a = 1 })", "[a]()", "{ a: { b = 1 }.c }", "{ a: [b = 1].c }", "[[a].b]", "[{ a }.b]", "function () { }.a", "class { }.a", "a`${ b }`", "a.b`c`", "a.b()", "a()()", "a?b:c.d", "...a", "...[a]", "a, ...b", "...a, b", "a,", "", "/r/g", "/=/", "\"a\"", "true", "false", "1.5", "0x1f", "`a`.b", "/r/.b", "'a'.b", "1..b", "null.b", "new a(b).c", "new.target.a", "[...a].b", "{ ...a }.b", "{ a() { } }.b", "[,]", "[, ,]", "[a, , ...b]", "(a, b).c", "(() => { }).a", "async () => { }", "async function () { }", "function* () { }", "(function () { })", "(class { })", "a[b, c]", "a.if", "((a)).b", "((a, b))", "[(a, b)]", "{ a: (b, c) }", "(a)++", "a\n.b", "{ a, a }", "[a, a]", "{ if: a }", "{ if }", "{ 'a' }", "{ 1 }", "{ [a] }", "{ get }", "{ async }", "{ get a }", "{ async: a }", "{ *a }",
];
const USES: &[&str] = &[
    "% = 1;", "(% = 1);", "% += 1;", "% **= 1;", "(%) = 1;", "(%) += 1;", "((%)) = 1;", "%++;", "--%;", "(%)++;", "++(%);", "x = % = 1;", "x = %;", "% = % = 1;", "x = [%];", "x = (%);", "f(%);", "f(% = 1);", "f(...%);", "-% = 1;", "% + 1 = 1;", "typeof % = 1;", "% ? 1 : 2;", "x ? % = 1 : 2;", "% ? 1 : % = 2;", "(x ? % : 2) = 1;", "%.x = 1;", "(%).x = 1;", "(%)[0]++;", "[%].x = 1;", "[%]().x = 1;", "{ %.x = 1 }", "new %;", "delete %;", "`${ % }`;", "`${ % = 1 }`;",
    "[%] = x;", "[% = 1] = x;", "[...%] = x;", "[, %] = x;", "[%, b] = x;", "[b, %] = x;", "[%, ...b] = x;", "[(%)] = x;", "[[%]] = x;", "[[%] = 1] = x;", "[{ a: % }] = x;", "x = [%] = y;", "[%].b = x;", "[% += 1] = x;", "([%]) = x;", "([%] = x);", "[%] += x;", "[%]++;",
    "({ a: % } = x);", "({ a: % = 1 } = x);", "({ ...% } = x);", "({ b, ...% } = x);", "({ [b]: % } = x);", "({ 'a': %, b } = x);", "({ a: (%) } = x);", "({ a: { b: % } } = x);", "({ a: [%] } = x);", "({ %: a } = x);", "({ % } = x);", "({ % = 1 } = x);", "({ a: % }) = x;", "({ a: % } += x);", "x = { a: % };", "({ a: % }).b = x;", "({ a: %, b = 1 } = x);", "({ b = %} = x);", "({ a: % += 1 } = x);", "({ get a() { % = 1 } });",
    "for (% of x) ;", "for (% in x) ;", "for (% = 1 of x) ;", "for (% = 1 in x) ;", "for (% = 1;;) ;", "for (%;;) ;", "for ((%) of x) ;", "for ((%) in x) ;", "for ([%] of x) ;", "for ({ a: % } of x) ;", "for ([%] in x) ;", "for ({ a: % = 1 } in x) ;", "for ([...%] of x) ;", "for (x of %) ;", "for (x in %) ;", "for (x of % = 1) ;", "for (x in % = 1) ;", "for (;%;%) ;", "for (% += 1 in x) ;", "for (%.b of x) ;", "for (([%]) of x) ;", "for (let % of x) ;", "for (let % in x) ;", "for (var % = 1;;) ;", "for (const % of x) ;", "for (var % in x) ;", "for (let [%] of x) ;", "for (% , b;;) ;", "for (b, % = 1;;) ;",
    "% => 1;", "(%) => 1;", "(%, z) => 1;", "(z, %) => 1;", "(...%) => 1;", "(z, ...%) => 1;", "(% = 1) => 1;", "(z = %) => 1;", "([%]) => 1;", "([...%]) => 1;", "([% = 1]) => 1;", "({ z: % }) => 1;", "({ z: % = 1 }) => 1;", "({ ...% }) => 1;", "({ [z]: % }) => 1;", "({ % }) => 1;", "((%)) => 1;", "([(%)]) => 1;", "(%)\n=> 1;", "(%, ) => 1;", "async % => 1;", "async (%) => 1;", "async (%, z) => 1;", "async (...%) => 1;", "async (% = 1) => 1;", "async ([%]) => 1;", "async ({ z: % }) => 1;", "async ((%)) => 1;", "async (%);", "async (%, z);", "async (% = 1);", "async (...%);", "async ({ z: % = 1 });", "async (%)\n=> 1;", "async (%, ) => 1;", "x = (%) => { };", "f((%) => 1);", "x ? (%) => 1 : 2;", "x ? (%) : 2;", "x ? (%) : z => 1;", "z => (%) = 1;", "z => % = 1;", "() => ({ z: % } = x);", "() => [%] = x;", "(z = [%] = x) => 1;", "(z = { y: % } = x) => 1;", "(z = (%) => 1) => 1;",
    "let % = x;", "const % = x;", "var % = x;", "let [%] = x;", "let [...%] = x;", "let [% = 1] = x;", "let { z: % } = x;", "let { z: % = 1 } = x;", "let { ...% } = x;", "let { [z]: % } = x;", "var { % } = x;", "var [[%]] = x;", "let %;", "let z, % = x;", "function g(%) { }", "function g(z, %) { }", "function g(...%) { }", "function g([%]) { }", "function g({ z: % }) { }", "x = { m(%) { } };", "x = { set m(%) { } };", "class A { m(%) { } }", "try { } catch (%) { }", "try { } catch ([%]) { }", "try { } catch ({ z: % }) { }",
    "%", "%;", "(%);", "x = { y: (%) };", "%\n= 1", "%\n++x", "% = 1, 2;", "return % = 1;", "throw % = 1;", "if (% = 1) ;", "switch (% = 1) { case % += 1: }", "x[% = 1];", "yield % = 1;", "await % = 1;", "!(% = 1);", "x = y = % = z;", "x = (y, % = 1);", "x = [y, % = 1];", "x = { y: % = 1 };", "x = { ...% = 1 };", "x || (% = 1);", "x || % = 1;", "% = x || 1;", "%=>{}", "% = y => 1;", "% = (y) => { };", "export default % = 1;", "class B extends (% = 1) { }", "class B { [% = 1]() { } }", "x`${ % }` = 1;", "`${ % }` = 1;",
];
const TCTX: &[(&str, &str)] = &[("", ""), ("'use strict';", ""), ("x = { m() {", "} };"), ("function* g() {", "}"), ("async function g() {", "}"), ("class A extends B { constructor() {", "} }"), ("function g() {", "}"), ("x = () => {", "};")];

fn c23(cfg: &Cfg, o: &mut Obs) -> Report {
    let d = [FORMS.len(), USES.len()];
    diff(cfg, o, "plain", total(&d), |r, i| {
        let c = cell(i, total(&d), &d, r);
        dt(put(USES[c[1]], FORMS[c[0]]), false, "plain")
    });
    let d = [FORMS.len(), USES.len(), TCTX.len()];
    let n = cfg.n(90_000, total(&d));
    diff(cfg, o, "surroundings", n, |r, i| {
        let c = cell(i, n, &d, r);
        dt(in_ctx(TCTX[c[2]], &put(USES[c[1]], FORMS[c[0]])), r.pc(8), "surrounding")
    });
    // as a value, everywhere
    let d = [FORMS.len(), PLACES.len() + HEADS.len()];
    diff(cfg, o, "values", total(&d), |r, i| {
        let c = cell(i, total(&d), &d, r);
        let p = if c[1] < PLACES.len() { PLACES[c[1]] } else { HEADS[c[1] - PLACES.len()] };
        dt(put(p, FORMS[c[0]]), p.contains("export"), "value")
    });
    // declared, with and without an initializer
    const KEYS: &[&str] = &["var", "let", "const"];
    const DECL: &[&str] = &[
        "%;", "% = x;", "z, %;", "%, z;", "%, z = x;", "z = x, %;", "z = x, % = x;", "%\n", "% = x, z;", "% /**/", "% = x\n, z", "z\n%", "%;;)", "%", "% of x) ;", "% in x) ;", "% = y of x) ;", "% = y in x) ;", "% = y;;) ;", "z, %;;) ;", "%, z;;) ;", "% = x, z;;) ;", "%, z of x) ;", "% in x, y) ;", "% of x, y) ;", "%;;) ;", "z = x, % = y;;) ;", "z = x, %;;) ;",
    ];
    let d = [FORMS.len(), KEYS.len(), DECL.len(), 4];
    let n = cfg.n(70_000, total(&d) * 2);
    diff(cfg, o, "declared", n, |r, i| {
        let c = cell(i, n, &d, r);
        let (k, t) = (KEYS[c[1]], DECL[c[2]]);
        let t = put(t, FORMS[c[0]]);
        let t = if t.ends_with(';') && t.contains(") ;") { format!("for ({k} {t}") } else { format!("{k} {t}") };
        match c[3] {
            0 => dt(t, false, "declared"),
            1 => dt(t, true, "declared"),
            2 if t.starts_with("for") => dt(format!("async function g() {{ {} }}", t.replacen("for (", "for await (", 1)), false, "declared"),
            2 => dt(format!("export {t}"), true, "declared"),
            _ => dt(in_ctx(TCTX[r.n(TCTX.len())], &t), false, "declared"),
        }
    });
    // forms inside of forms
    const WRAP: &[&str] = &[
        "%", "[%]", "[%, b]", "[...%]", "[% = 1]", "(%)", "{ a: % }", "{ a: % = 1 }", "{ ...% }", "{ b, a: % }", "%.b", "%[0]", "%()", "[[%]]", "{ a: { b: % } }", "{ [a]: % }", "{ a: (%) }", "[(%)]", "% = 1", "(% = 1)", "[b, ...%]", "a = %", "(a, %)", "a ? % : b", "f(%)", "{ a = % }", "[a = %]", "`${ % }`", "x[%]", "[%].b", "{ a: % }.b", "() => %", "(%) => 1", "function () { % }", "{ m(a = %) { } }", "{ get [%]() { } }", "{ a: %, b = 1 }", "{ b = 1, a: % }", "[%, { b = 1 }]", "async (%)", "async (%) => 1", "(%).b", "%`a`", "new (%)", "(%, { b = 1 })", "{ ...b, a: % }", "{ a: [%] = 1 }", "[{ a: % } = 1]",
    ];
    let d = [FORMS.len(), WRAP.len(), USES.len()];
    let n = cfg.n(130_000, 2_000_000);
    diff(cfg, o, "two-deep", n, |r, i| {
        let c = cell(i, n, &d, r);
        dt(put(USES[c[2]], &put(WRAP[c[1]], FORMS[c[0]])), false, "two-deep")
    });
    diff(cfg, o, "deeper", cfg.n(90_000, 1_500_000), |r, _| {
        let mut t = FORMS[r.n(FORMS.len())].to_string();
        if r.pc(50) {
            t = ["a", "a.b", "[a]", "{ a }", "{ a = 1 }", "(a)"][r.n(6)].into();
        }
        for _ in 0..2 + r.n(4) {
            t = put(WRAP[r.n(WRAP.len())], &t);
        }
        let t = put(USES[r.n(USES.len())], &t);
        if t.len() > 2000 {
            return None;
        }
        let t = if r.pc(25) { in_ctx(TCTX[r.n(TCTX.len())], &t) } else { t };
        dt(t, r.pc(5), "deeper")
    });
    diff(cfg, o, "crowds", cfg.n(50_000, 1_000_000), |r, _| {
        let leaf = put(USES[r.n(USES.len())], FORMS[r.n(FORMS.len())]);
        dt(crowd(r, leaf), r.pc(6), "crowd")
    });
    rep(
        "a case counts when both parsers gave a verdict on a form of the table (or one nested in others) used as in the table, and verdict and tree agree; distinct by text",
        &["both.accept", "both.reject", "crowd", "plain", "value", "surrounding", "two-deep", "deeper", "declared"],
        120_000,
    )
}

// ---------------------------------------------------------------- entries of the tables, for other checks
/// some statement of the tables, valid or not
pub fn snippet(r: &mut Rng) -> String {
    match r.n(6) {
        0 => STRICT_SENSITIVE[r.n(STRICT_SENSITIVE.len())].to_string(),
        1 => {
            let mut t = JUMPS[r.n(JUMPS.len())].to_string();
            for _ in 0..r.n(4) {
                let (a, b) = JUMP_IN[r.n(JUMP_IN.len())];
                t = format!("{}{}\n{}", a, t, b);
            }
            t
        }
        2 => YA_STMT[r.n(YA_STMT.len())].to_string(),
        3 => put(USES[r.n(USES.len())], FORMS[r.n(FORMS.len())]),
        4 => put(PLACES[r.n(PLACES.len())], &expression(r)),
        _ => put(WORD_PLACES[r.n(WORD_PLACES.len())], WORDS[r.n(WORDS.len())]),
    }
}
/// some expression of the tables, valid or not
pub fn expression(r: &mut Rng) -> String {
    match r.n(3) {
        0 => YA[r.n(YA.len())].to_string(),
        _ => FORMS[r.n(FORMS.len())].to_string(),
    }
}
/// a statement whose meaning depends on strictness
pub fn strict_sensitive(r: &mut Rng) -> &'static str {
    STRICT_SENSITIVE[r.n(STRICT_SENSITIVE.len())]
}
