//! C15: rows. A list of any kind and any length, of mixed pieces, consists of what each
//! piece gives between two plain neighbours; the first mistake is the one it has there.
use super::api::{balanced, expr_piece, read, stmt_piece, Src};
use crate::oracle::*;
use crate::rng::Rng;
use crate::run::*;

/// what the pieces of a list are
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Stmt,
    Expr,
    Object,
    Class,
    Param,
    Element,
    Prop,
    TargetElement,
    TargetProp,
    Decl,
    Case,
    Import,
    Export,
    Item,
}
use Kind::*;
struct Row(&'static str, &'static str, &'static str, Kind);
const ROWS: &[Row] = &[
    Row("", "\n", "", Stmt),
    Row("{", "", "}", Stmt),
    Row("function f() {", "", "}", Stmt),
    Row("function* f() {", "", "}", Stmt),
    Row("async function f() {", "", "}", Stmt),
    Row("x = async () => {", "", "}", Stmt),
    Row("class A { m() {", "", "} }", Stmt),
    Row("function f() { 'use strict'; ", "", "}", Stmt),
    Row("l: while (x) {", "", "}", Stmt),
    Row("switch (x) { case 1: ", "", "}", Stmt),
    Row("switch (x) {", "", "}", Case),
    Row("function* g() { l: for (;;) switch (x) { default: y;", "", "} }", Case),
    Row("x = [", ",", "];", Expr),
    Row("f(", ",", ");", Expr),
    Row("new f(", ",", ");", Expr),
    Row("(", ",", ");", Expr),
    Row("x = async(", ",", ");", Expr),
    Row("function* g() { yield [", ",", "] }", Expr),
    Row("async function g() { await f(", ",", ") }", Expr),
    Row("for (", ",", ";;) ;", Expr),
    Row("class A { m() { return [", ",", "] } }", Expr),
    Row("x = {", ",", "};", Object),
    Row("f({", ",", "})", Object),
    Row("async function* g() { return {", ",", "} }", Object),
    Row("class A {", "", "}", Class),
    Row("x = class extends B {", ";", "};", Class),
    Row("function f(", ",", ") { }", Param),
    Row("x = function* (", ",", ") { };", Param),
    Row("x = async (", ",", ") => { };", Param),
    Row("x = (", ",", ") => 1;", Param),
    Row("x = { m(", ",", ") { } };", Param),
    Row("class A { constructor(", ",", ") { } }", Param),
    Row("let [", ",", "] = x;", Element),
    Row("try { } catch ([", ",", "]) { }", Element),
    Row("var {", ",", "} = x;", Prop),
    Row("for (const {", ",", "} of x) ;", Prop),
    Row("function f({", ",", "}) { }", Prop),
    Row("[", ",", "] = x;", TargetElement),
    Row("for ([", ",", "] of x) ;", TargetElement),
    Row("({", ",", "} = x);", TargetProp),
    Row("f({ a: {", ",", "} } = x);", TargetProp),
    Row("var ", ",", ";", Decl),
    Row("let ", ",", ";", Decl),
    Row("for (var ", ",", ";;) ;", Decl),
    Row("import {", ",", "} from 'm';", Import),
    Row("import d, {", ",", "} from 'm';", Import),
    Row("export {", ",", "};", Export),
    Row("export {", ",", "} from 'm';", Export),
    Row("", "\n", "", Item),
];
/// `%` stands for the number of the piece, and this for a `%` of the piece itself
const REM: &str = "\u{2}";
fn e(src: &Src, r: &mut Rng) -> String {
    format!("\n{}\n", expr_piece(src, r).replace('%', REM))
}
fn named(x: &str, n: usize) -> String {
    x.replace('%', &n.to_string()).replace(REM, "%")
}
fn p(src: &Src, r: &mut Rng) -> String {
    match r.n(9) {
        0..=2 => "p%".into(),
        3 => "[p%]".into(),
        4 => "{ p% }".into(),
        5 => "{ a: p%, b: [q%] }".into(),
        6 => format!("[p% ={}, , ...q%]", e(src, r)),
        7 => format!("{{ p% ={}, [{}]: q% }}", e(src, r), e(src, r)),
        _ => ["yield%", "async%", "$%", "\u{3b1}%", "let%"][r.n(5)].into(),
    }
}
fn t(src: &Src, r: &mut Rng) -> String {
    match r.n(8) {
        0 => "p%".into(),
        1 => "a.b%".into(),
        2 => format!("a[{}]", e(src, r)),
        3 => "[p%, ...q%]".into(),
        4 => "{ p% }".into(),
        5 => format!("f({}).c%", e(src, r)),
        6 => "(p%)".into(),
        _ => format!("{{ p% ={} }}", e(src, r)),
    }
}
fn b(src: &Src, r: &mut Rng) -> String {
    if r.pc(50) {
        String::new()
    } else {
        format!("\n;{}\n;", stmt_piece(src, r, false).replace('%', REM))
    }
}
fn key(src: &Src, r: &mut Rng) -> String {
    match r.n(8) {
        0..=2 => "k%".into(),
        3 => "'k %'".into(),
        4 => "1%".into(),
        5 => format!("[{}]", e(src, r)),
        6 => ["get", "set", "async", "static", "await", "yield", "let", "of", "if", "new", "null", "eval", "class"][r.n(13)].into(),
        _ => "\u{3b1}%".into(),
    }
}
fn params(src: &Src, r: &mut Rng) -> String {
    ["".to_string(), "a".into(), "a, b".into(), "a, ...b".into(), format!("a ={}", e(src, r)), "[a], { b }".into(), p(src, r)][r.n(7)].clone()
}
/// a method, without the modifiers of a class
fn method(src: &Src, r: &mut Rng) -> String {
    let k = key(src, r);
    match r.n(6) {
        0 => format!("get {}() {{{}}}", k, b(src, r)),
        1 => format!("set {}({}) {{{}}}", k, p(src, r), b(src, r)),
        2 => format!("*{}({}) {{{}}}", k, params(src, r), b(src, r)),
        3 => format!("async {}({}) {{{}}}", k, params(src, r), b(src, r)),
        4 => format!("async *{}({}) {{{}}}", k, params(src, r), b(src, r)),
        _ => format!("{}({}) {{{}}}", k, params(src, r), b(src, r)),
    }
}
fn piece(kind: Kind, spread: bool, src: &Src, r: &mut Rng) -> String {
    match kind {
        Stmt => format!("\n;{}\n;;\n", stmt_piece(src, r, false).replace('%', REM)),
        Expr => {
            if spread && r.pc(10) {
                format!("\n...{}\n", expr_piece(src, r).replace('%', REM))
            } else {
                e(src, r)
            }
        }
        Object => match r.n(6) {
            0 => "p%".into(),
            1 => format!("...{}", e(src, r)),
            2 => format!("[{}]: {}", e(src, r), e(src, r)),
            3 => format!("{}: {}", key(src, r), e(src, r)),
            _ => method(src, r),
        },
        Class => format!("{}{}{}", if r.pc(25) { "static " } else { "" }, method(src, r), if r.pc(10) { ";" } else { "" }),
        Param => {
            if r.pc(25) {
                format!("{} ={}", p(src, r), e(src, r))
            } else {
                p(src, r)
            }
        }
        Element => match r.n(6) {
            0 => "".into(),
            1 => format!("{} ={}", p(src, r), e(src, r)),
            _ => p(src, r),
        },
        Prop => match r.n(5) {
            0 => "p%".into(),
            1 => format!("p% ={}", e(src, r)),
            2 => format!("{}: {} ={}", key(src, r), p(src, r), e(src, r)),
            _ => format!("{}: {}", key(src, r), p(src, r)),
        },
        TargetElement => match r.n(6) {
            0 => "".into(),
            1 => format!("{} ={}", t(src, r), e(src, r)),
            _ => t(src, r),
        },
        TargetProp => match r.n(5) {
            0 => "p%".into(),
            1 => format!("p% ={}", e(src, r)),
            2 => format!("{}: {} ={}", key(src, r), t(src, r), e(src, r)),
            _ => format!("{}: {}", key(src, r), t(src, r)),
        },
        Decl => match r.n(4) {
            0 => "p%".into(),
            1 => format!("p% = ({})", e(src, r)),
            _ => format!("{} = [{}]", p(src, r), e(src, r)),
        },
        Case => format!("case {}: {}{}\n;", e(src, r), b(src, r), if r.pc(30) { "break;" } else { "" }),
        Import => ["p%", "default as p%", "if as p%", "p as p%", "as as p%"][r.n(5)].into(),
        Export => ["p%", "p as p%", "p as if%", "as as p%", "p% as as%"][r.n(5)].into(),
        Item => match r.n(12) {
            0 => "import 'm%';".into(),
            1 => "import p% from 'm%';".into(),
            2 => "import * as p% from 'm';".into(),
            3 => "import p%, { q%, default as r% } from 'm%';".into(),
            4 => "export * from 'm%';".into(),
            5 => "export { p% as q% };".into(),
            6 => format!("export var p% ={};", e(src, r)),
            7 => format!("export function p%({}) {{{}}}", params(src, r), b(src, r)),
            8 => format!("export class p% {{ {} }}", method(src, r)),
            9 => format!("export async function p%({}) {{{}}}", params(src, r), b(src, r)),
            _ => format!("\n;{}\n;;\n", stmt_piece(src, r, true).replace('%', REM)),
        },
    }
}
/// a neighbour that has one name in it
fn plain(kind: Kind, name: &str) -> String {
    match kind {
        Stmt | Item => format!("\n;{}\n;;\n", name),
        Expr | Param | Element | Prop | TargetElement | TargetProp | Decl | Import | Export | Object => name.into(),
        Class => format!("{}() {{ }}", name),
        Case => format!("case {}:", name),
    }
}
pub fn rows(o: &mut Obs, src: &Src, r: &mut Rng) -> Result<(), Bug> {
    let row = &ROWS[r.n(ROWS.len())];
    let kind = row.3;
    let module = matches!(kind, Import | Export | Item) || r.pc(10);
    let tolerant = r.pc(10);
    let n = match r.n(40) {
        0 => [127, 128, 129, 255, 256, 257, 300, 511, 513, 1023, 1025, 2049][r.n(12)],
        1..=4 => 10 + r.n(70),
        _ => 1 + r.n(9),
    };
    let (m1, m2) = (plain(kind, "zz1"), plain(kind, "zz2"));
    let run = |x: &str| -> Result<Got, Bug> {
        let g = parse_opt(x, module, tolerant);
        match &g.panic {
            Some(p) => Err(bug(format!("panic: {}", p), x, "")),
            None => Ok(g),
        }
    };
    let base = run(&format!("{}{}{}{}{}", row.0, m1, row.1, m2, row.2))?;
    if !base.ok() {
        if module {
            return Ok(());
        }
        return Err(bug("a plain row is rejected", &format!("{}{}{}{}{}", row.0, m1, row.1, m2, row.2), base.show()));
    }
    let base = base.parts.concat();
    let (i, j) = match (base.find("zz1"), base.find("zz2")) {
        (Some(i), Some(j)) if i < j => (i + 3, j),
        _ => return Err(bug("the neighbours are not in the tree", &base, "")),
    };
    // the pieces: few kinds in the long rows, so that these stay affordable
    let kinds = if n > 80 { 1 + r.n(4) } else { n };
    let mut pool: Vec<(String, Got)> = vec![];
    let mut wrong = false;
    for _ in 0..kinds * 3 {
        if pool.len() == kinds {
            break;
        }
        let x = piece(kind, row.0 != "(" && !row.0.starts_with("for"), src, r);
        if row.0 == "(" && x.trim_start().starts_with("...") {
            continue;
        }
        let probe = named(&x, 0);
        if !balanced(&probe) || x.contains("<!--") || x.contains("-->") || x.contains("__proto__") || x.contains("constructor") || (n > 80 && x.len() > 200) {
            continue;
        }
        if matches!(kind, Stmt | Item | Case) {
            if let Some(v) = scan(&probe) {
                let ends: Vec<usize> = v.iter().filter(|t| !t.comment && !t.eof).map(|t| t.end).rev().take(1).collect();
                if x.starts_with("\n;") && ends != vec![probe.len() - 1] {
                    continue;
                }
            }
        }
        let text = format!("{}{}{}{}{}{}{}", row.0, m1, row.1, probe, row.1, m2, row.2);
        if !read(&text) {
            continue;
        }
        let g = run(&text)?;
        if !g.ok() {
            // at most one piece that is wrong, and only now and then
            if wrong || !r.pc(25) {
                continue;
            }
            wrong = true;
        }
        pool.push((x, g));
    }
    if pool.is_empty() {
        o.skipped += 1;
        return Ok(());
    }
    if pool.iter().all(|x| !x.1.ok()) {
        return Ok(());
    }
    // the wrong piece stands in the row once
    let good: Vec<usize> = (0..pool.len()).filter(|k| pool[*k].1.ok()).collect();
    let bad = (0..pool.len()).find(|k| !pool[*k].1.ok());
    let mut order: Vec<usize> = (0..n).map(|k| if n <= 80 && k < good.len() { good[k] } else { good[r.n(good.len())] }).collect();
    if let Some(k) = bad {
        let at = r.n(order.len());
        order[at] = k;
    }
    // what a piece adds between its neighbours, with the name that it has here
    let adds = |x: &str, g: &Got| -> Option<String> {
        let s = g.parts.concat();
        let s = s.strip_prefix(&base[..i])?.strip_suffix(&base[j..])?.to_string();
        let _ = x;
        Some(s)
    };
    let between = &base[i..j];
    // where to cut: common to all of them
    let mut cut = between.len();
    for k in &good {
        let s = match adds(&pool[*k].0, &pool[*k].1) {
            Some(s) => s,
            None => {
                o.feat("rows.not comparable");
                return Ok(());
            }
        };
        cut = cut.min(s.bytes().zip(between.bytes()).take_while(|(a, b)| a == b).count());
    }
    while !between.is_char_boundary(cut) {
        cut -= 1;
    }
    let mut text = format!("{}{}{}", row.0, m1, row.1);
    let mut want = String::from(&base[..i + cut]);
    let mut wrong_at = None;
    for (at, k) in order.iter().enumerate() {
        let (x, g) = &pool[*k];
        let x = named(x, at);
        if Some(*k) == bad {
            wrong_at = Some((text.len(), x.clone()));
        } else if wrong_at.is_none() {
            let s = match if pool[*k].0.contains('%') { adds(&x, &run(&format!("{}{}{}{}{}{}{}", row.0, m1, row.1, x, row.1, m2, row.2))?) } else { adds(&x, g) } {
                Some(s) => s,
                None => return Err(bug("a piece is valid with one name and not with another", &x, "")),
            };
            match s.get(cut..).filter(|_| s.as_bytes()[..cut] == between.as_bytes()[..cut]).and_then(|y| y.strip_suffix(&between[cut..])) {
                Some(y) => want.push_str(y),
                None => {
                    o.feat("rows.not comparable");
                    return Ok(());
                }
            }
        }
        text.push_str(&x);
        text.push_str(row.1);
    }
    text.push_str(&m2);
    text.push_str(row.2);
    want.push_str(&base[i + cut..]);
    if !read(&text) {
        o.skipped += 1;
        return Ok(());
    }
    let got = run(&text)?;
    let label = format!("{:?}", kind);
    if let Some((start, x)) = wrong_at {
        let alone = format!("{}{}{}{}{}{}{}", row.0, m1, row.1, x, row.1, m2, row.2);
        let off0 = row.0.len() + m1.len() + row.1.len();
        let g = run(&alone)?;
        let e = match &g.err {
            Some(e) => e,
            None => return Ok(()),
        };
        let off = match e.pos.and_then(|(l, c)| Lines::new(&alone).offset(l, c)) {
            Some(f) if f >= off0 && f < off0 + x.len() => f,
            _ => {
                o.feat("rows.error elsewhere");
                return Ok(());
            }
        };
        let w = E { pos: Some(Lines::new(&text).at(off - off0 + start)), display: String::new(), ..e.clone() };
        match &got.err {
            None => return Err(bug("a piece that fails alone is accepted in a row", &text, format!("{}\nalone: {}\n{}", x, alone, g.show()))),
            Some(e) if (E { display: String::new(), ..e.clone() }) != w => return Err(bug("a piece fails in another way in a row", &text, format!("piece: {}\nalone: {}\nin a row: {}", x, g.show(), got.show()))),
            _ => {}
        }
        o.feat("rows.error");
    } else {
        let s = got.parts.concat();
        if let Some(e) = &got.err {
            return Err(bug("pieces that are valid alone fail in a row", &text, format!("[module={} tolerant={}] {:?}", module, tolerant, e)));
        }
        if s != want {
            return Err(bug("a row has another tree than its pieces", &text, format!("[module={} tolerant={}]\ngot:  {}\nwant: {}", module, tolerant, s, want)));
        }
        o.feat("rows.valid");
    }
    o.feat(&format!("rows.{}", label));
    if n > 80 {
        o.feat("rows.long");
        o.maxf("longest row", n as f64);
    }
    o.seen(&text, true);
    Ok(())
}
