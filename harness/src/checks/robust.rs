//! C12, C20: no panic, no endless loop, no cost out of proportion.
use super::tree::rep;
use crate::diff::*;
use crate::gen::*;
use crate::gx::*;
use crate::oracle::*;
use crate::rng::Rng;
use crate::run::*;
use crate::tok::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn list() -> Vec<(&'static str, super::F)> {
    vec![("C12", c12), ("C20", c20)]
}

// ---------------------------------------------------------------- C12
/// how a text is put through the parser
const USES: &[&str] = &["iterator", "parse", "comments", "tolerant", "new"];
/// Run the parser to its end and ask for more: parts, then at most one error, then nothing.
fn run_all(text: &str, module: bool, how: usize) -> Result<(&'static str, usize), String> {
    arm(text);
    let limit = text.len() + 2;
    let go = || -> Result<(&'static str, usize), String> {
        fn pull<CH: ressa::CommentHandler>(p: &mut ressa::Parser<CH>, limit: usize) -> Result<(&'static str, usize), String> {
            let mut n = 0;
            let mut end = "valid";
            loop {
                match p.next() {
                    None => break,
                    Some(Ok(_)) => n += 1,
                    Some(Err(e)) => {
                        let _ = e.to_string();
                        let _ = format!("{:?}", e);
                        end = "error";
                        break;
                    }
                }
                if n > limit {
                    return Err("more parts than characters: the iterator does not end".into());
                }
            }
            for _ in 0..3 {
                if p.next().is_some() {
                    return Err(format!("the iterator goes on after its end ({})", end));
                }
            }
            Ok((end, n))
        }
        match USES[how] {
            "parse" => match ressa::Builder::new().module(module).js(text).build() {
                Err(_) => Ok(("error", 0)),
                Ok(mut p) => match p.parse() {
                    Ok(x) => Ok(("valid", program(&x).1.len())),
                    Err(e) => {
                        let _ = e.to_string();
                        Ok(("error", 0))
                    }
                },
            },
            "comments" => match ressa::Builder::new().module(module).js(text).with_comment_handler(|_: ress::Item| {}) {
                Err(_) => Ok(("error", 0)),
                Ok(mut p) => pull(&mut p, limit),
            },
            "new" => match ressa::Parser::new(text) {
                Err(_) => Ok(("error", 0)),
                Ok(mut p) => pull(&mut p, limit),
            },
            h => match ressa::Builder::new().module(module).tolerant(h == "tolerant").js(text).build() {
                Err(_) => Ok(("error", 0)),
                Ok(mut p) => pull(&mut p, limit),
            },
        }
    };
    match catch_unwind(AssertUnwindSafe(go)) {
        Ok(r) => r,
        Err(e) => Err(format!("panic: {}", panic_text(&e))),
    }
}
fn survives(o: &mut Obs, r: &mut Rng, text: &str, label: &str) -> Result<(), Bug> {
    // a text on which the tokenizer itself panics says nothing about the parser
    let n = match scan(text) {
        None => {
            o.skipped += 1;
            return Ok(());
        }
        Some(v) => v.len(),
    };
    let module = r.pc(40);
    let how = r.n(USES.len());
    match run_all(text, module, how) {
        Err(m) => Err(bug(m, text, format!("{} module={} {}", USES[how], module, label))),
        Ok((end, _)) => {
            o.feat(&format!("{}.{}", label, end));
            o.feat(&format!("use.{}", USES[how]));
            o.maxf("tokens", n as f64);
            o.seen(text, n > 2);
            Ok(())
        }
    }
}
const ODD: &[&str] = &[
    "\u{0}", "\u{1}", "\u{7f}", "\u{85}", "\u{a0}", "\u{200c}", "\u{200d}", "\u{feff}", "\u{2028}", "\u{2029}", "é", "ß", "日", "😀", "𝒳", "\u{301}", "\u{10ffff}", "\\", "\\u", "\\u{", "\\u0061", "#", "@", "\"", "'", "`", "${", "}", "/*", "*/", "//", "<!--", "-->", "/", "\r", "\n",
    "\r\n", "0x", "0b", "0o", "1e", ".", "..", "...", "=>", "**=", ">>>=", "?.", "??", "1n", "08", "09.5", "0.0.0", "{", "(", "[", ")", "]", ";", ",", ":", "\t",
];
fn c12(cfg: &Cfg, o: &mut Obs) -> Report {
    let s = seeds(&cfg.root);
    let words: Vec<String> = {
        let mut v = s.pool.clone();
        v.extend(["`t`", "`a${", "}b${", "}c`", "/re/g", "/", "/=", "'use strict'", "#", "@", "0x1F", ".5", "async", "await", "yield", "let", "static", "get", "set", "of", "import", "export", "enum", "null", "super", "new", "target", "."].iter().map(|x| x.to_string()));
        v
    };
    cases(cfg, o, "soup", cfg.n(150_000, 4_000_000), |o, r, _| {
        let most = if r.pc(10) { 120 } else { 25 };
        let n = 1 + r.n(most);
        let mut t = String::new();
        for _ in 0..n {
            t.push_str(&words[r.n(words.len())]);
            t.push_str(["", " ", " ", " ", "\n", " /* c */ ", "\r\n"][r.n(7)]);
        }
        survives(o, r, &t, "soup")
    });
    // the same few words again and again: look-ahead and cover grammar
    cases(cfg, o, "thin-soup", cfg.n(150_000, 4_000_000), |o, r, _| {
        let k = 2 + r.n(6);
        let set: Vec<&String> = (0..k).map(|_| &words[r.n(words.len())]).collect();
        let n = 1 + r.n(30);
        let mut t = String::new();
        for _ in 0..n {
            t.push_str(set[r.n(k)]);
            t.push_str(["", " ", " ", "\n"][r.n(4)]);
        }
        survives(o, r, &t, "thin-soup")
    });
    cases(cfg, o, "characters", cfg.n(150_000, 4_000_000), |o, r, i| {
        let mut t = match i % 3 {
            0 => s.texts[r.n(s.texts.len())].0.clone(),
            1 => format!("{}\n{}", s.texts[r.n(s.texts.len())].0, s.texts[r.n(s.texts.len())].0),
            _ => {
                let mut g = Gen::new(Rng::new(r.next(), "g", 0), prof_small());
                let p = g.program();
                let st = style(r);
                render(&p.toks, r, &st, true).text
            }
        };
        for _ in 0..1 + r.n(4) {
            let ix: Vec<usize> = t.char_indices().map(|x| x.0).chain(std::iter::once(t.len())).collect();
            let a = ix[r.n(ix.len())];
            let b = ix[r.n(ix.len())];
            let (a, b) = (a.min(b), a.max(b));
            match r.n(6) {
                0 => t.insert_str(a, ODD[r.n(ODD.len())]),
                1 => t.insert_str(a, &words[r.n(words.len())]),
                2 => {
                    // remove a few characters
                    let e = ix[(ix.iter().position(|x| *x == a).unwrap() + 1 + r.n(3)).min(ix.len() - 1)];
                    t.replace_range(a..e, "");
                }
                3 => t.truncate(b),
                4 => {
                    let x = t[a..b].to_string();
                    t.insert_str(a, &x);
                }
                _ => {
                    let e = ix[(ix.iter().position(|x| *x == a).unwrap() + 1).min(ix.len() - 1)];
                    t.replace_range(a..e, ODD[r.n(ODD.len())]);
                }
            }
            if t.len() > 3000 {
                let mut e = 3000;
                while !t.is_char_boundary(e) {
                    e -= 1;
                }
                t.truncate(e);
            }
        }
        survives(o, r, &t, "characters")
    });
    cases(cfg, o, "noise", cfg.n(40_000, 800_000), |o, r, _| {
        let n = r.n(60);
        let mut t = String::new();
        for _ in 0..n {
            match r.n(4) {
                0 => t.push_str(ODD[r.n(ODD.len())]),
                1 => t.push((32 + r.n(95)) as u8 as char),
                2 => t.push(char::from_u32(r.n(0x3000) as u32).unwrap_or('x')),
                _ => t.push(*[' ', 'a', '1', '(', ')', '{', '}', '\n', ';', '='].iter().nth(r.n(10)).unwrap()),
            }
        }
        survives(o, r, &t, "noise")
    });
    // every prefix, character by character, of the seeds
    let ns = s.texts.len() as u64;
    cases(cfg, o, "prefixes", ns * if cfg.thorough { WRAPN } else { 2 }, |o, r, i| {
        let k = (i / ns) as usize;
        let (a, b) = super::neg::WRAPS[if k == 0 { 0 } else { 1 + r.n(super::neg::WRAPS.len() - 1) }];
        let t = format!("{}{}{}", a, s.texts[(i % ns) as usize].0, b);
        for (j, _) in t.char_indices() {
            survives(o, r, &t[..j], "prefixes")?;
        }
        survives(o, r, &t, "prefixes")
    });
    let mut must: Vec<String> = USES.iter().map(|u| format!("use.{}", u)).collect();
    for l in ["soup", "thin-soup", "characters", "noise", "prefixes"] {
        must.push(format!("{}.valid", l));
        must.push(format!("{}.error", l));
    }
    let must: Vec<&str> = must.iter().map(|s| s.as_str()).collect();
    rep(
        "a case counts when a text (token soup, edited characters, noise, prefixes) that the tokenizer crate can split was put through one of the ways to use the parser until its end and three calls further, without a panic, in time; distinct by text, more than two tokens",
        &must,
        100_000,
    )
}
const WRAPN: u64 = 24;

// ---------------------------------------------------------------- C20
/// text of size n for each family: (name, text)
fn families() -> Vec<(&'static str, fn(usize) -> String)> {
    fn rp(s: &str, n: usize) -> String {
        s.repeat(n)
    }
    vec![
        ("statements", |n| rp("a = b + c;\n", n)),
        ("one-line", |n| rp("a = b + c;", n)),
        ("declarations", |n| rp("var a = 1, b; let c = 2;\n", n)),
        ("functions", |n| rp("function f(a, b = 1, ...c) { return a; }\n", n)),
        ("arrows", |n| rp("x = (a, [b], { c = 1 }) => a;\n", n)),
        ("async-arrows", |n| rp("x = async (a, b) => { await a; };\n", n)),
        ("classes", |n| rp("class A extends B { m() { } get g() { } static *s() { } }\n", n)),
        ("loops", |n| rp("for (let a of b) for (c in d) while (e) { break; }\n", n)),
        ("labels", |n| rp("l: for (;;) { continue l; }\n", n)),
        ("switches", |n| rp("switch (a) { case b: c; default: d; }\n", n)),
        ("try", |n| rp("try { a; } catch (e) { b; } finally { c; }\n", n)),
        ("templates", |n| rp("x = `a${b}c${d}e`;\n", n)),
        ("regexes", |n| rp("x = /a[/]b/g;\n", n)),
        ("strings", |n| rp("x = 'aaaaaaaaaaaaaaaa';\n", n)),
        ("comments", |n| rp("a; // b\n/* c\n d */\n", n)),
        ("only-comments", |n| rp("/* c */ // d\n", n)),
        ("no-semicolons", |n| rp("a\nb = c\n", n)),
        ("directives", |n| rp("'use asm';\n", n)),
        ("unicode", |n| rp("é = 'ñ' + 日本; // 😀\n", n)),
        ("ls-lines", |n| rp("a = b;\u{2028}", n)),
        ("blank-lines", |n| rp("\n", 10 * n) + "a"),
        ("blanks", |n| rp(" ", 20 * n) + "a"),
        ("binary", |n| format!("x = a{};", rp(" + b * c", n))),
        ("logical", |n| format!("x = a{};", rp(" && b || c", n))),
        ("power", |n| format!("x = a{};", rp(" ** b", n.min(3000)))),
        ("commas", |n| format!("x = (a{});", rp(", b", n))),
        ("array", |n| format!("x = [a{}];", rp(", b", n))),
        ("holes", |n| format!("x = [{}];", rp(",", n))),
        ("object", |n| format!("x = {{ {} }};", rp("a: b, c, d() { }, [e]: f, ", n))),
        ("arguments", |n| format!("f(a{});", rp(", b, ...c", n))),
        ("parameters", |n| format!("function f(a{}) {{ }}", rp(", b = 1", n))),
        ("arrow-parameters", |n| format!("x = (a{}) => b;", rp(", b = 1", n))),
        ("async-arrow-parameters", |n| format!("x = async (a{}) => b;", rp(", b", n))),
        ("array-pattern", |n| format!("[a{}] = x;", rp(", b = 1", n))),
        ("object-pattern", |n| format!("({{ a{} }} = x);", rp(", b: c = 1, d = 2", n))),
        ("declared-pattern", |n| format!("let {{ a{} }} = x;", rp(", b: [c]", n))),
        ("members", |n| format!("a{};", rp(".b[c](d)", n))),
        ("new-members", |n| format!("new a{};", rp(".b", n))),
        ("tagged", |n| format!("a{};", rp("`b${c}d`", n))),
        ("declarators", |n| format!("var a{};", rp(", b = c", n))),
        ("cases", |n| format!("switch (a) {{ {} }}", rp("case b: c; break;\n", n))),
        ("members-of-class", |n| format!("class A {{ {} }}", rp("m() { } static n() { }\n", n))),
        ("template-parts", |n| format!("x = `{}`;", rp("a${b}", n))),
        ("long-string", |n| format!("x = '{}';", rp("abcdefghij", n))),
        ("long-name", |n| format!("x = {};", rp("abcdefghij", n))),
        ("long-number", |n| format!("x = {};", rp("1234567890", n))),
        ("long-regex", |n| format!("x = /{}/;", rp("abc[def]", n))),
        ("long-comment", |n| format!("/*{}*/ a", rp("abcdefghi\n", n))),
        ("long-template", |n| format!("x = `{}`;", rp("abcdefghi\n", n))),
        ("import-names", |n| format!("import {{ a{} }} from 'm';", rp(", b as c", n))),
        ("export-names", |n| format!("export {{ a{} }} from 'm';", rp(", b as c", n))),
        ("block", |n| format!("{{ {} }}", rp("a;\n", n))),
        ("else-if", |n| format!("if (a) b; {}", rp("else if (c) d;\n", n.min(1500)))),
    ]
}
/// nesting of depth n
fn deep() -> Vec<(&'static str, fn(usize) -> String)> {
    fn nest(a: &str, m: &str, z: &str, n: usize) -> String {
        format!("{}{}{}", a.repeat(n), m, z.repeat(n))
    }
    vec![
        ("parentheses", |n| nest("(", "a", ")", n)),
        ("arrays", |n| nest("[", "a", "]", n)),
        ("objects", |n| format!("x = {}", nest("{ a: ", "b", " }", n))),
        ("array-patterns", |n| format!("{} = x", nest("[", "a", "]", n))),
        ("object-patterns", |n| format!("({} = x)", nest("{ a: ", "b", " }", n))),
        ("declared-patterns", |n| format!("let {} = x", nest("[{ a: ", "b", " }]", n))),
        ("pattern-defaults", |n| format!("({} = x)", nest("[a = ", "b", "]", n))),
        ("arrow-patterns", |n| format!("x = ({}) => b", nest("[", "a", "]", n))),
        ("arrow-defaults", |n| format!("x = {}", nest("(a = ", "b", ") => c", n))),
        ("async-arrow-defaults", |n| format!("x = {}", nest("async (a = ", "b", ") => c", n))),
        ("arrow-bodies", |n| format!("x = {}", nest("(a) => ", "b", "", n))),
        ("arrow-blocks", |n| format!("x = {}", nest("a => { b(", "c", "); }", n))),
        ("async-calls", |n| nest("async(", "a", ")", n)),
        ("calls", |n| nest("f(", "a", ")", n)),
        ("news", |n| nest("new ", "a", "", n)),
        ("new-calls", |n| nest("new ", "a", "()", n)),
        ("computed", |n| nest("a[", "b", "]", n)),
        ("functions", |n| nest("function f() { ", "", " }", n)),
        ("function-defaults", |n| format!("x = {}", nest("function (a = ", "b", ") { }", n))),
        ("classes", |n| format!("x = {}", nest("class extends (", "b", ") { }", n))),
        ("class-members", |n| format!("x = {}", nest("class { [", "b", "]() { } }", n))),
        ("methods", |n| format!("x = {}", nest("{ m() { return ", "b", "; } }", n))),
        ("blocks", |n| nest("{", "a", "}", n)),
        ("ifs", |n| nest("if (a) ", "b", "", n)),
        ("if-else", |n| nest("if (a) { ", "b", " } else c", n)),
        ("whiles", |n| nest("while (a) ", "b", "", n)),
        ("dos", |n| nest("do ", "b;", " while (a);", n)),
        ("fors", |n| nest("for (;;) ", "b", "", n)),
        ("for-ins", |n| nest("for (a in b) ", "c", "", n)),
        ("trys", |n| nest("try { ", "a", " } finally { }", n)),
        ("switches", |n| nest("switch (a) { case b: ", "c", " }", n)),
        ("labels", |n| (0..n).map(|i| format!("l{}: ", i)).collect::<String>() + "a"),
        ("templates", |n| format!("x = {}", nest("`a${", "b", "}c`", n))),
        ("conditionals", |n| format!("x = {}", nest("a ? b : ", "c", "", n))),
        ("conditional-middles", |n| format!("x = {}", nest("a ? ", "b", " : c", n))),
        ("assignments", |n| nest("a = ", "b", "", n)),
        ("unary", |n| nest("! ", "a", "", n)),
        ("typeof", |n| nest("typeof ", "a", "", n)),
        ("spread", |n| nest("[...", "a", "]", n)),
        ("powers", |n| nest("a ** ", "b", "", n)),
        ("commas-in-parentheses", |n| nest("(a, ", "b", ")", n)),
        ("yields", |n| format!("function* g() {{ {} }}", nest("yield ", "a", "", n))),
        ("awaits", |n| format!("async function g() {{ {} }}", nest("await ", "a", "", n))),
        ("open-parentheses", |n| nest("(", "", "", n)),
        ("open-brackets", |n| nest("[", "", "", n)),
        ("open-braces", |n| nest("{", "", "", n)),
        ("open-objects", |n| format!("x = {}", nest("{ a: ", "", "", n))),
        ("open-arrows", |n| format!("x = {}", nest("(a = ", "", "", n))),
        ("wrong-parentheses", |n| nest("(", "]", ")", n)),
    ]
}
struct Cost {
    bytes: f64,
    count: f64,
    secs: f64,
    ok: bool,
}
fn cpu() -> f64 {
    // CPU time of this thread
    let s = std::fs::read_to_string("/proc/thread-self/schedstat").unwrap_or_default();
    s.split_whitespace().next().and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0) / 1e9
}
fn cost(text: &str, module: bool) -> Result<Cost, Bug> {
    arm(text);
    let (c0, b0) = allocated();
    let t0 = cpu();
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut p = match ressa::Builder::new().module(module).js(text).build() {
            Ok(p) => p,
            Err(_) => return (false, (cpu(), allocated())),
        };
        let r = p.parse();
        let ok = r.is_ok();
        let at = (cpu(), allocated());
        // dropping a tree is not what is measured
        drop(r);
        (ok, at)
    }));
    let (r, t1, (c1, b1)) = match r {
        Ok((ok, at)) => (Ok(ok), at.0, at.1),
        Err(e) => (Err(e), t0, (c0, b0)),
    };
    match r {
        Ok(ok) => Ok(Cost { bytes: (b1 - b0) as f64, count: (c1 - c0) as f64, secs: t1 - t0, ok }),
        Err(e) => Err(bug(format!("panic: {}", panic_text(&e)), &text.chars().take(300).collect::<String>(), "")),
    }
}
/// Cost of the larger text against the cost of the smaller one.
fn in_proportion(o: &mut Obs, label: &str, a: &str, b: &str, module: bool, time: bool) -> Result<(), Bug> {
    let short = |t: &str| t.chars().take(400).collect::<String>();
    let _ = cost(a, module)?;
    let ca = cost(a, module)?;
    let cb = cost(b, module)?;
    if ca.ok != cb.ok {
        return Err(bug("a longer text of the same shape has another verdict", &short(b), format!("{}: {} bytes: ok={}, {} bytes: ok={}", label, a.len(), ca.ok, b.len(), cb.ok)));
    }
    let grow = b.len() as f64 / a.len() as f64;
    for (what, x, y, slack) in [("bytes allocated", ca.bytes, cb.bytes, 20_000.0), ("allocations", ca.count, cb.count, 200.0)].iter() {
        if *y > 1.7 * grow * x + slack {
            return Err(bug(
                format!("{} out of proportion to the length of the text", what),
                &short(b),
                format!("{}: text {} -> {} bytes ({:.1}x), {}: {:.0} -> {:.0} ({:.1}x)", label, a.len(), b.len(), grow, what, x, y, y / x),
            ));
        }
        o.maxf(&format!("growth of {} against the text", what), (y - slack).max(0.0) / (x * grow));
    }
    if time {
        // CPU time of this thread; a busy machine may disturb one measurement, not all of them
        let mut best = f64::MAX;
        for _ in 0..4 {
            let mut n = 0;
            let t0 = cpu();
            let mut t1 = t0;
            while t1 - t0 < 0.05 && n < 1000 {
                let _ = cost(a, module)?;
                n += 1;
                t1 = cpu();
            }
            let ta = ((t1 - t0) / n as f64).max(1e-6);
            let tb = cost(b, module)?.secs;
            best = best.min(if tb < 0.03 { 0.0 } else { tb / ta / grow });
            if best < 3.0 {
                break;
            }
        }
        o.maxf("growth of the CPU time against the text", best);
        if best >= 3.0 {
            return Err(bug("CPU time out of proportion to the length of the text", &short(b), format!("{}: text {} -> {} bytes ({:.1}x), time grows {:.1} times as much", label, a.len(), b.len(), grow, best)));
        }
        o.feat("measured.time");
    }
    o.feat("measured.memory");
    o.maxf("longest.text", b.len() as f64);
    o.seen(&format!("{} {}", label, b.len()), true);
    Ok(())
}
/// what may surround an expression, any of them inside any other
const AROUND: &[(&str, &str)] = &[
    ("(", " ** a)"), ("(", " = a)"), ("(", " && a)"), ("(", ", a, b)"), ("(", " ? a : b)"), ("(", " in a)"), ("(", " instanceof a)"), ("(", "[a])"), ("(", "(a))"), ("(", "`a`)"), ("(", " ? (a) : b)"), ("(", ").a = b"), ("(delete ", ".a)"), ("(new (", "))"), ("(", " * a + b)"), ("(a + b * ", ")"), ("(", " == a && b)"),
    ("(", ")"), ("[", "]"), ("({ a: ", " })"), ("f(", ")"), ("(a = ", ")"), ("((a = ", ") => c)"), ("(async (a = ", ") => c)"), ("((b) => ", ")"), ("(a => { b(", "); })"), ("new f(", ")"), ("a[", "]"), ("(function (a = ", ") { })"), ("(function () { return ", "; })"),
    ("(class { [", "]() { } })"), ("(class extends ", " { })"), ("({ m() { return ", "; } })"), ("`a${", "}b`"), ("(a ? b : ", ")"), ("(a ? ", " : b)"), ("(", " ? a : b)"), ("(! ", ")"), ("(a + ", ")"), ("(", " + a)"), ("(a && ", ")"), ("(", " || a)"), ("(a, ", ")"), ("(", ", a)"), ("[...", "]"),
    ("f(...", ")"), ("({ ...", " })"), ("([a = ", "] = b)"), ("({ a = ", " } = b)"), ("(", ").a"), ("async(", ")"), ("(async function () { await ", "; })"), ("(function* () { yield ", "; })"), ("(a ** ", ")"), ("f`a${", "}b`"), ("({ [", "]: a })"), ("({ get a() { return ", " } })"), ("(typeof ", ")"), ("(() => { if (", ") b; })"), ("(() => { for (let a of ", ") b; })"),
    ("(({ a: [b = ", "] }) => c)"), ("(() => { switch (", ") { case b: c; } })"), ("(() => { var a = ", ", b; })"), ("(() => { try { ", "; } catch (e) { } })"), ("(() => { l: while (", ") break l; })"),
];
/// what a list of statements may stand in, or behind; # is a number of its own
const OUTER: &[(&str, &str)] = &[
    ("l#: {\n", "}\n"), ("l#: for (;;) {\n", "}\n"), ("l#: l#a: l#b: { ", "}"), ("l#: while (a) { break l#; ", "}"), ("{\n", "}\n"), ("if (a#) {\n", "} else { b# }\n"), ("for (let a# of b) {", "}"), ("for (var a# in b) {", "}"), ("switch (a#) { case b#: ", "break; }"), ("try {", "} catch (e#) { }"), ("try { } catch (e#) {", "}"), ("try { } finally {", "}"),
    ("function f#(a#) {\n", "}\n"), ("function* f#() { yield a#;", "}"), ("async function f#() { await a#;", "}"), ("x# = function () {", "};"), ("x# = () => {", "};"), ("x# = async (a#) => {", "};"), ("class A# { m#() {", "} }"), ("class A# extends B# { constructor() { super();", "} }"), ("x# = { m#() {", "} };"), ("x# = { get m#() {", "} };"), ("x# = { ['a#']: function () {", "} };"), ("do {", "} while (a#);"), ("'use strict';{", "}"), ("function f#() { 'use strict'; ", "}"), ("with (a#) {", "}"),
    ("var a#, b# = 1;\n", ""), ("let a#;\n", ""), ("const a# = 1;", ""), ("function f#(a#, b#) { }\n", ""), ("class A# { }\n", ""), ("l#: a#;\n", ""), ("/* a# */ // b#\n", ""), ("'a#';\n", ""), ("x = `a#${ b# }c#`;\n", ""), ("x = { a#: b#, c# };\n", ""), ("a#(b#);\n", ""), ("({ a#, b#: [c#] } = x);\n", ""), ("x = (a#, b#) => c#;\n", ""), ("a#\n", ""), ("x# = [\n", "];"), ("x# = {a:\n", "};"), ("f#(\n", ");"), ("x# = `${\n", "}`;"), ("(\n", ")"),
];
/// what such a list may consist of
const INNER: &[&str] = &[
    "a#;\n", "f#(function () { a#; });\n", "f#(() => { a#; });\n", "f#(() => a#);\n", "f#(async () => { await a#; });\n", "function f#() { a#; }\n", "function* f#() { yield a#; }\n", "class A# { m#() { } static n#() { } }\n", "x = { m#() { }, get a#() { } };\n", "l#c: for (;;) { continue l#c; }\n", "for (var a# of b) c#;\n", "while (a#) { break; }\n", "switch (a#) { case b#: c#; default: break; }\n", "try { a#; } catch (e#) { }\n", "if (a#) b#; else c#;\n", "var a# = b#;\n", "let a# = b#;\n", "{ let a#; }\n", "x = (a#, b#);\n", "x = (a#, b#) => { };\n", "[a#, b# = 1] = c;\n", "({ a#, b#: c# } = d);\n", "x = `a#${ b# }c#`;\n", "/* a# */ b# // c#\n", "x = /a#/g;\n", "a#\n++b#\n", "x = a# ? b# : c#;\n", "x = a# + b# * c# ** d#;\n", "do a#; while (b#);\n", "'a#';\n", "new a#(b#).c#;\n", "async(a#);\n", "x = async (a#) => { };\n", "x = async function () { await a#; };\n", "debugger; ;\n", "l#c: { break l#c; }\n",
    "a#,", "(a#),", "[a#],", "() => { a# },", "function () { a# },", "a# = b#,", "{ a# },", "`a#`,", "a + ", "a# && ",
];
/// what makes an expression of a program
const BODIES: &[(&str, &str)] = &[("(", ")"), ("(function () {", "})"), ("(async function* () {", "})"), ("(() => {", "})")];
fn c20(cfg: &Cfg, o: &mut Obs) -> Report {
    let (fl, fd) = (families(), deep());
    cases(cfg, o, "long", fl.len() as u64, |o, _r, i| {
        let (name, f) = fl[i as usize];
        let module = name.starts_with("import") || name.starts_with("export");
        in_proportion(o, name, &f(500), &f(500 * if cfg.thorough { 256 } else { 64 }), module, true)?;
        o.feat(&format!("long.{}", name));
        Ok(())
    });
    cases(cfg, o, "deep", fd.len() as u64, |o, _r, i| {
        let (name, f) = fd[i as usize];
        in_proportion(o, name, &f(40), &f(40 * if cfg.thorough { 64 } else { 16 }), false, false)?;
        o.feat(&format!("deep.{}", name));
        Ok(())
    });
    // every seed, again and again
    let s = seeds(&cfg.root);
    cases(cfg, o, "repeated-seeds", s.texts.len() as u64, |o, _r, i| {
        let (t, m) = &s.texts[i as usize];
        let t = format!("{}\n;", t);
        // for each unclosed `<!--` the tokenizer crate itself goes to the end of the text
        if t.contains("<!--") || t.contains("-->") || scan(&t).is_none() || !parse(&t.repeat(2), *m).ok() {
            o.skipped += 1;
            return Ok(());
        }
        in_proportion(o, &t, &t.repeat(20), &t.repeat(if cfg.thorough { 2000 } else { 320 }), *m, cfg.thorough)?;
        o.feat("seed.repeated");
        Ok(())
    });
    // expressions inside of expressions, in turns
    cases(cfg, o, "mixed-nesting", cfg.n(4_000, 100_000), |o, r, i| {
        let na = AROUND.len();
        let k = if (i as usize) < na { 1 } else { 2 + r.n(3) };
        let w: Vec<usize> = if k == 1 { vec![i as usize] } else { (0..k).map(|_| r.n(na)).collect() };
        let make = |d: usize| {
            let mut a = String::new();
            let mut z = String::new();
            for j in 0..d {
                a.push_str(AROUND[w[j % k]].0);
                z.insert_str(0, AROUND[w[j % k]].1);
            }
            format!("{}x{};", a, z)
        };
        let (n, f) = if cfg.thorough { (48, 8) } else { (48, 4) };
        let t = make(n);
        let g = parse(&t, false);
        if !g.ok() {
            // one that can't hold the other
            o.skipped += 1;
            return Ok(());
        }
        in_proportion(o, &make(k), &t, &make(n * f), false, false)?;
        o.feat("mixed.nesting");
        Ok(())
    });
    // every seed nested in itself, and in another one, at each of its names
    let mut holes: Vec<(String, String)> = vec![];
    for (t, m) in &s.texts {
        let items = match scan(t) {
            Some(v) if !*m && !t.contains("<!--") && !t.contains("-->") => v,
            _ => continue,
        };
        for it in items {
            if !it.dbg.starts_with("Ident") {
                continue;
            }
            let (a, b) = (&t[..it.start], &t[it.end..]);
            let mut found = None;
            for (x, y) in BODIES {
                // a new line ends a comment
                let (pre, post) = (format!("{}{}(", x, a), format!("){}\n{}", b, y));
                if parse(&format!("{}{}x{}{};", pre, pre, post, post), false).ok() {
                    found = Some((pre, post));
                    break;
                }
            }
            holes.extend(found);
        }
    }
    o.maxf("places to nest", holes.len() as f64);
    let nh = holes.len();
    cases(cfg, o, "nested-seeds", nh as u64 + cfg.n(4_000, 150_000), |o, r, i| {
        let w: Vec<usize> = if (i as usize) < nh { vec![i as usize] } else { (0..2 + r.n(2)).map(|_| r.n(nh)).collect() };
        let k = w.len();
        let make = |d: usize| {
            let mut a = String::new();
            let mut z = vec![];
            for j in 0..d {
                a.push_str(&holes[w[j % k]].0);
                z.push(holes[w[j % k]].1.as_str());
            }
            a.push('x');
            z.reverse();
            a + &z.concat() + ";"
        };
        if !parse(&make(24), false).ok() {
            o.skipped += 1;
            return Ok(());
        }
        in_proportion(o, &make(k), &make(24), &make(24 * 4), false, false)?;
        o.feat("nested.seeds");
        Ok(())
    });
    // a long list of one kind deep inside of, or behind, many of another kind, with names of their own
    let (no, ni) = (OUTER.len(), INNER.len());
    cases(cfg, o, "wide-and-deep", (no * ni) as u64 + cfg.n(1_500, 60_000), |o, r, i| {
        let (a, b) = if (i as usize) < no * ni { (i as usize / ni, i as usize % ni) } else { (r.n(no), r.n(ni)) };
        let (a2, b2) = if (i as usize) < no * ni { (a, b) } else { (r.n(no), r.n(ni)) };
        let make = |n: usize| {
            let name = |t: &str, j: usize| t.replace('#', &format!("{}", 10000 + j));
            let mut x = String::new();
            let mut y = vec![];
            for j in 0..n {
                let (p, q) = if j % 2 == 0 { OUTER[a] } else { OUTER[a2] };
                x.push_str(&name(p, j));
                y.push(name(q, j));
            }
            let m: String = (0..n).map(|j| name(if j % 2 == 0 { INNER[b] } else { INNER[b2] }, j)).collect();
            y.reverse();
            format!("{}{}{}", x, m, y.concat())
        };
        let t = make(20);
        if !parse(&t, false).ok() {
            o.skipped += 1;
            return Ok(());
        }
        in_proportion(o, &make(2), &t, &make(if cfg.thorough { 200 } else { 120 }), false, false)?;
        o.feat("wide.and.deep");
        Ok(())
    });
    let mut must: Vec<String> = fl.iter().map(|f| format!("long.{}", f.0)).chain(fd.iter().map(|f| format!("deep.{}", f.0))).collect();
    must.extend(["measured.time", "measured.memory", "seed.repeated", "mixed.nesting", "nested.seeds", "wide.and.deep"].iter().map(|s| s.to_string()));
    let must: Vec<&str> = must.iter().map(|s| s.as_str()).collect();
    rep(
        "a case counts when two texts of the same shape and of different length or depth were parsed under a counting allocator, and bytes, allocations and (for long texts) CPU time grew in proportion to the length; distinct by shape and length",
        &must,
        2_000,
    )
}
