//! C06: literals, names, templates and directives are kept as they are written.
use super::tree::rep;
use crate::gx::*;
use crate::hole::*;
use crate::rng::Rng;
use crate::run::*;
use crate::tok::*;

pub fn list() -> Vec<(&'static str, super::F)> {
    vec![("C06", c06)]
}

fn digits(r: &mut Rng, set: &str, n: usize) -> String {
    let cs: Vec<char> = set.chars().collect();
    (0..n.max(1)).map(|_| cs[r.n(cs.len())]).collect()
}
pub fn number(r: &mut Rng, o: &mut Obs) -> String {
    let long = if r.pc(10) { 40 } else { 6 };
    let exp = |r: &mut Rng| {
        if r.pc(30) {
            format!("{}{}{}", ["e", "E"][r.n(2)], ["", "+", "-"][r.n(3)], { let n = 1 + r.n(3); digits(r, "0123456789", n) })
        } else {
            String::new()
        }
    };
    let int = |r: &mut Rng| {
        let n = r.n(long);
        format!("{}{}", digits(r, "123456789", 1), if n == 0 { String::new() } else { digits(r, "0123456789", n) })
    };
    let k = r.n(8);
    o.feat(["num.int", "num.zero", "num.fraction", "num.leading-dot", "num.trailing-dot", "num.hex", "num.octal", "num.binary"][k]);
    match k {
        0 => format!("{}{}", int(r), exp(r)),
        1 => format!("0{}", exp(r)),
        2 => {
            let n = 1 + r.n(long);
            format!("{}.{}{}", int(r), digits(r, "0123456789", n), exp(r))
        }
        3 => {
            let n = 1 + r.n(long);
            format!(".{}{}", digits(r, "0123456789", n), exp(r))
        }
        4 => format!("{}.{}", int(r), exp(r)),
        5 => {
            let n = 1 + r.n(long);
            format!("0{}{}", ["x", "X"][r.n(2)], digits(r, "0123456789abcdefABCDEF", n))
        }
        6 => {
            let n = 1 + r.n(long);
            format!("0{}{}", ["o", "O"][r.n(2)], digits(r, "01234567", n))
        }
        _ => {
            let n = 1 + r.n(long);
            format!("0{}{}", ["b", "B"][r.n(2)], digits(r, "01", n))
        }
    }
}
const SP: &[&str] = &[
    "a", "b c", " ", "1", "{", "}", "${", "/", "/*", "*/", "//", "<!--", "\\n", "\\t", "\\\\", "\\'", "\\\"", "\\`", "\\x41", "\\u0041", "\\u{1F600}", "\\0", "\\b", "é", "日", "😀", "\u{a0}",
    "\u{feff}", "use strict", ";", "\\z", "$", "=>", "(", ")", "\\/", "\\${", "\t", "\\u{0}", "\\v", "'", "\"", "`", "null", "\u{2028}", "\u{2029}",
];
pub fn string(r: &mut Rng, o: &mut Obs) -> String {
    let q = ["'", "\""][r.n(2)];
    let mut s = String::from(q);
    for _ in 0..r.n(7) {
        match r.n(12) {
            0 => {
                s.push_str(["\\\n", "\\\r\n", "\\\r", "\\\u{2028}"][r.n(4)]);
                o.feat("str.continuation");
            }
            _ => {
                let x = SP[r.n(SP.len())];
                if x == q || x.contains('\u{2028}') || x.contains('\u{2029}') {
                    continue;
                }
                if x.starts_with('\\') {
                    o.feat("str.escape");
                }
                s.push_str(x);
            }
        }
    }
    // \0 before a digit would be an octal escape
    let s = s.replace("\\01", "\\0");
    o.feat(if s.len() == 1 { "str.empty" } else { "str" });
    format!("{}{}", s, q)
}
pub fn regex(r: &mut Rng, o: &mut Obs) -> (String, String) {
    const A: &[&str] = &[
        "a", "b", "1", ".", "\\d", "\\/", "[a-z]", "[/]", "[^/\\]]", "(a)", "(?:b|c)", "x*", "y+?", "z{1,2}", "\\b", "\\u0041", "$", "^a", "é", "[\\/]", "(?=a)", "\\\\", "[[]", "=", "'", "\"", "`",
        "\\{", "日", "\\.",
    ];
    let mut s = String::new();
    for _ in 0..1 + r.n(5) {
        s.push_str(A[r.n(A.len())]);
    }
    if s.starts_with('*') {
        s.insert(0, 'a');
    }
    let mut f = String::new();
    for c in "gimuys".chars() {
        if r.pc(25) {
            f.push(c);
        }
    }
    o.feat(if f.is_empty() { "re.plain" } else { "re.flags" });
    (s, f)
}
pub fn quasi(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.n(6) {
        match r.n(9) {
            0 => s.push_str(["\n", "\r\n", "\r", "\u{2028}", "\\\n"][r.n(5)]),
            _ => {
                let x = SP[r.n(SP.len())];
                if x == "`" || x == "${" || x == "\\z" {
                    continue;
                }
                // no accidental substitution
                if s.ends_with('$') && x.starts_with('{') {
                    continue;
                }
                s.push_str(x);
            }
        }
    }
    s.replace("\\01", "\\0")
}
pub fn template(r: &mut Rng, o: &mut Obs, d: usize) -> (Vec<Tok>, String) {
    let n = if d == 0 { 0 } else { r.n(4) };
    let qs: Vec<String> = (0..n + 1)
        .map(|_| {
            let mut q = quasi(r);
            while q.ends_with('\\') {
                q.pop();
            }
            q
        })
        .collect();
    let mut sx = String::from("(tpl");
    for (i, q) in qs.iter().enumerate() {
        sx.push_str(&format!(" {{{}{}", q, if i == n { "}t" } else { "}" }));
    }
    let mut t = vec![];
    if n == 0 {
        t.push(tk(&format!("`{}`", qs[0]), K::TplFull));
    } else {
        t.push(tk(&format!("`{}${{", qs[0]), K::TplHead));
        for i in 0..n {
            let (a, b) = value(r, o, d - 1);
            t.extend(a);
            sx.push(' ');
            sx.push_str(&b);
            if i + 1 == n {
                t.push(tk(&format!("}}{}`", qs[i + 1]), K::TplTail));
            } else {
                t.push(tk(&format!("}}{}${{", qs[i + 1]), K::TplMid));
            }
        }
    }
    sx.push(')');
    o.feat(["tpl.full", "tpl.one", "tpl.two", "tpl.three"][n]);
    if d < 2 && n > 0 {
        o.feat("tpl.nested");
    }
    (t, sx)
}
pub fn name(r: &mut Rng, o: &mut Obs) -> String {
    const A: &[&str] = &["a", "B", "_", "$", "ñ", "变", "ℼ", "Ω", "x", "ⅷ", "ª", "\\u0061", "\\u{62}"];
    const B: &[&str] = &["a", "Z", "0", "9", "_", "$", "é", "量", "\u{200c}", "\u{200d}", "\u{301}", "٣", "\\u0030", "if", "let"];
    let k = if r.pc(85) { 11 } else { 13 };
    let mut s = A[r.n(k)].to_string();
    for _ in 0..r.n(6) {
        let k = if r.pc(85) { 6 } else { B.len() };
        s.push_str(B[r.n(k)]);
    }
    const WORDS: &[&str] = &[
        "async", "of", "get", "set", "from", "as", "target", "constructor", "undefined", "NaN", "instanceOf", "iff", "inn", "forr", "nulls", "trues", "thisOne", "letter", "yields", "newTarget", "prototype",
        "__proto__", "Let", "If", "NULL", "awaited", "statics",
    ];
    if r.pc(25) {
        s = WORDS[r.n(WORDS.len())].to_string();
        o.feat("name.look-alike");
    } else if s.contains('\\') {
        o.feat("name.escape");
    } else if s.is_ascii() {
        o.feat("name.ascii");
    } else {
        o.feat("name.unicode");
    }
    // a word that happens to be reserved is not a name
    const RES: &[&str] = &["if", "alet"];
    if RES.contains(&s.as_str()) {
        s.push('_');
    }
    s
}
/// an expression that is one literal or name
fn value(r: &mut Rng, o: &mut Obs, d: usize) -> (Vec<Tok>, String) {
    match r.n(8) {
        0 | 1 => {
            let n = number(r, o);
            (vec![tk(&n, K::Num)], format!("(num {})", n))
        }
        2 | 3 => {
            let s = string(r, o);
            (vec![tk(&s, K::Str)], format!("(str {})", s))
        }
        4 => {
            let (a, b) = regex(r, o);
            (vec![p("("), tk(&format!("/{}/{}", a, b), K::Re), p(")")], format!("(re {} {})", a, b))
        }
        5 => {
            let n = name(r, o);
            (vec![w(&n)], format!("(id {})", n))
        }
        6 => {
            let (t, s) = [("true", "(bool true)"), ("false", "(bool false)"), ("null", "(null)"), ("this", "(this)")][r.n(4)];
            (vec![w(t)], s.into())
        }
        _ => template(r, o, d),
    }
}
fn st(r: &mut Rng) -> Style {
    match r.n(3) {
        0 => PLAIN,
        1 => TIGHT,
        _ => LOOSE,
    }
}

fn c06(cfg: &Cfg, o: &mut Obs) -> Report {
    // one literal or name inside of random surroundings
    cases(cfg, o, "values", cfg.n(120_000, 2_500_000), |o, r, _| {
        let (t, s) = value(r, o, 2);
        let d = r.n(4);
        let m = r.pc(20);
        let h = Hole::chain(r, d, m, true);
        let style = st(r);
        let sloppy = h.ctx.clone();
        if s.contains("(id async)") && sloppy.await_ok {
            // `async` may be a name anywhere, keep it simple next to arrows
        }
        let done = in_hole(o, r, &style, &h, &t, &s)?;
        if done {
            o.feat("position.expression");
        }
        Ok(())
    });
    // everywhere else a number, string or name may stand
    cases(cfg, o, "positions", cfg.n(80_000, 1_500_000), |o, r, i| {
        let style = st(r);
        let num = number(r, o);
        let s1 = string(r, o);
        let n1 = name(r, o);
        let mut n2 = name(r, o);
        while n2 == n1 {
            n2 = name(r, o);
        }
        let plain_key = |s: &str| !s.contains("__proto__") && !s.contains("constructor") && !s.contains("prototype");
        let k = (i % 20) as usize;
        let (t, sx, module): (Vec<Tok>, String, bool) = match k {
            0 if plain_key(&n1) => (vec![w("x"), p("="), p("{"), tk(&num, K::Num), p(":"), tk(&s1, K::Str), p(","), tk(&s1, K::Str), p(":"), w(&n1), p(","), w(&n1), p(":"), tk(&num, K::Num), p("}"), p(";").asi(1)],
                format!("(expr (= (id x)(obj(init (num {}){})(init (str {})(id {}))(init (id {})(num {})))))", num, format!("(str {})", s1), s1, n1, n1, num), false),
            1 if plain_key(&n1) => (vec![w("class"), w("A"), p("{"), tk(&num, K::Num), p("("), p(")"), p("{"), p("}"), w("get"), tk(&s1, K::Str), p("("), p(")"), p("{"), p("}"), w("static"), w(&n1), p("("), p(")"), p("{"), p("}"), p("}")],
                format!("(classdecl A(method (num {})(fn <>[]))(get (str {})(fn <>[]))(method (id {})(fn <>[])))", num, s1, n1), false),
            2 if plain_key(&n1) => (vec![w("var"), p("{"), tk(&num, K::Num), p(":"), w("p"), p(","), tk(&s1, K::Str), p(":"), w("q"), p("="), tk(&num, K::Num), p(","), w(&n1), p("}"), p("="), w("z"), p(";").asi(1)],
                format!("(var ((objpat(p (num {})(id p))(p (str {})(def (id q)(num {})))(p short (id {})(id {}))) = (id z)))", num, s1, num, n1, n1), false),
            3 => (vec![w(&n1), p(":"), w("for"), p("("), p(";"), p(";"), p(")"), p("{"), w("break"), w(&n1).nn(), p(";").asi(1), w("continue"), w(&n1).nn(), p(";").asi(1), p("}")],
                format!("(label {}(for _;_;_(block [(break {})(continue {})])))", n1, n1, n1), false),
            4 => (vec![w("function"), w(&n1), p("("), w(&n2), p(")"), p("{"), w("return"), w(&n2).nn(), p(";").asi(1), p("}")], format!("(fndecl {}<(id {})>[(return (id {}))])", n1, n2, n2), false),
            5 => (vec![w("import"), w(&n1), p(","), p("{"), w(&n1), w("as"), w(&n2), p("}"), w("from"), tk(&s1, K::Str), p(";").asi(1)], format!("(import (d {})(n {} {})(str {}))", n1, n1, n2, s1), true),
            6 => (vec![w("export"), p("{"), w(&n1), w("as"), w(&n2), p("}"), w("from"), tk(&s1, K::Str), p(";").asi(1)], format!("(export-names ({} {})(str {}))", n1, n2, s1), true),
            7 => (vec![w("export"), p("*"), w("from"), tk(&s1, K::Str), p(";").asi(1)], format!("(export-all (str {}))", s1), true),
            8 => (vec![w("x"), p("."), w(&n1), p("."), w(&n2), p("="), tk(&num, K::Num), p(";").asi(1)], format!("(expr (= (. (. (id x)(id {}))(id {}))(num {})))", n1, n2, num), false),
            9 => (vec![w("class"), w(&n1), w("extends"), w(&n2), p("{"), p("}")], format!("(classdecl {} extends (id {}))", n1, n2), false),
            10 => (vec![w("try"), p("{"), p("}"), w("catch"), p("("), w(&n1), p(")"), p("{"), w(&n1), p(";").asi(1), p("}")], format!("(try [](catch (id {})[(expr (id {}))]))", n1, n1), false),
            11 => (vec![w("let"), w(&n1), p("="), tk(&num, K::Num), p(","), w(&n2), p("="), tk(&s1, K::Str), p(";").asi(1)], format!("(let ((id {}) = (num {})) ((id {}) = (str {})))", n1, num, n2, s1), false),
            12 => (vec![w("switch"), p("("), w(&n1), p(")"), p("{"), w("case"), tk(&num, K::Num), p(":"), w("case"), tk(&s1, K::Str), p(":"), w("case"), w(&n2), p(":"), p("}")], format!("(switch (id {})(case (num {})[])(case (str {})[])(case (id {})[]))", n1, num, s1, n2), false),
            13 => (vec![w("x"), p("["), tk(&s1, K::Str), p("]"), p("["), tk(&num, K::Num), p("]"), p(";").asi(1)], format!("(expr (. (. (id x)[(str {})])[(num {})]))", s1, num), false),
            14 => (vec![w("x"), p("="), p("("), w(&n1), p(","), p("..."), w(&n2), p(")"), p("=>").nn(), tk(&num, K::Num), p(";").asi(1)], format!("(expr (= (id x)(arrow<(id {})(rest (id {}))>(num {}))))", n1, n2, num), false),
            15 => {
                let (a, b) = regex(r, o);
                (vec![w("x"), p("="), tk(&format!("/{}/{}", a, b), K::Re), p("."), w("test"), p("("), tk(&s1, K::Str), p(")"), p(";").asi(1)], format!("(expr (= (id x)(call (. (re {} {})(id test))<(str {})>)))", a, b, s1), false)
            }
            16 => {
                let (a, b) = template(r, o, 2);
                let mut t = vec![w(&n1), p("."), w(&n2)];
                t.extend(a);
                t.push(p(";").asi(1));
                (t, format!("(expr (tag (. (id {})(id {})){}))", n1, n2, b), false)
            }
            17 => (vec![w("for"), p("("), w("const"), w(&n1), w("of"), p("["), tk(&num, K::Num), p("]"), p(")"), w(&n1), p("("), tk(&s1, K::Str), p(")"), p(";").asi(1)], format!("(forof (const ((id {})))(arr (num {}))(expr (call (id {})<(str {})>)))", n1, num, n1, s1), false),
            18 => (vec![w("x"), p("="), w("async"), w(&n1).nn(), p("=>").nn(), p("["), w(&n1), p(","), tk(&num, K::Num), p("]"), p(";").asi(1)], format!("(expr (= (id x)(arrow async<(id {})>(arr (id {}) (num {})))))", n1, n1, num), false),
            _ => (vec![w("x"), p("="), w("function"), w(&n1), p("("), w(&n2), p("="), tk(&s1, K::Str), p(")"), p("{"), p("}"), p(";").asi(1)], format!("(expr (= (id x)(fn {}<(def (id {})(str {}))>[])))", n1, n2, s1), false),
        };
        if exact(o, r, &style, &t, module, &[sx])? {
            o.feat(&format!("position.{:02}", k));
        }
        Ok(())
    });
    // prologues: strings before the first other statement are directives, later ones are not
    cases(cfg, o, "directives", cfg.n(60_000, 1_000_000), |o, r, i| {
        let n = r.n(4);
        let (mut t, mut parts) = (vec![], vec![]);
        for _ in 0..n {
            let mut s = string(r, o);
            while s.contains("use strict") {
                s = string(r, o);
            }
            t.push(tk(&s, K::Str));
            t.push(p(";").asi(1));
            parts.push(format!("(dir (str {}))", s));
        }
        let s2 = string(r, o);
        let after: (Vec<Tok>, String) = match r.n(8) {
            0 => (vec![], String::new()),
            1 => (vec![p("("), tk(&s2, K::Str), p(")"), p(";").asi(1)], format!("(expr (str {}))", s2)),
            2 => (vec![tk(&s2, K::Str), p("."), w("length"), p(";").asi(1)], format!("(expr (. (str {})(id length)))", s2)),
            3 => (vec![tk(&s2, K::Str), p("+"), w("a"), p(";").asi(1)], format!("(expr (+ (str {})(id a)))", s2)),
            4 => (vec![p(";")], "(empty)".into()),
            5 => (vec![w("a"), p(";").asi(1), tk(&s2, K::Str), p(";").asi(1)], format!("(expr (id a))\u{1}(expr (str {}))", s2)),
            6 => (vec![p("{"), tk(&s2, K::Str), p(";").asi(1), p("}")], format!("(block [(expr (str {}))])", s2)),
            _ => (vec![w("var"), w("a"), p(";").asi(1), tk(&s2, K::Str), p(";").asi(1)], format!("(var ((id a)))\u{1}(expr (str {}))", s2)),
        };
        if after.0.first().map(|x| x.k == K::Str).unwrap_or(false) && n == 0 && r.pc(50) {
            // keep both: with and without directives before
        }
        t.extend(after.0);
        parts.extend(after.1.split('\u{1}').filter(|x| !x.is_empty()).map(|x| x.to_string()));
        let wraps: &[(&str, &str, &str, &str)] = &[
            ("", "", "", ""),
            ("function f ( ) {", "}", "(fndecl f<>[", "])"),
            ("x = function ( a ) {", "} ;", "(expr (= (id x)(fn <(id a)>[", "])))"),
            ("x = ( ) => {", "} ;", "(expr (= (id x)(arrow<>[", "])))"),
            ("x = { m ( ) {", "} } ;", "(expr (= (id x)(obj(init method (id m)(fn <>[", "])))))"),
            ("class A { static get m ( ) {", "} }", "(classdecl A(get (id m)(fn <>[", "])))"),
            ("async function f ( ) {", "}", "(expr (fn async f<>[", "]))"),
            ("x = { set m ( v ) {", "} } ;", "(expr (= (id x)(obj(set (id m)(fn <(id v)>[", "])))))"),
        ];
        let k = (i % wraps.len() as u64) as usize;
        let (mut tt, mut pp) = (t.clone(), parts.clone());
        if k > 0 {
            tt = toks(wraps[k].0);
            tt.extend(t);
            tt.extend(toks(wraps[k].1));
            pp = vec![format!("{}{}{}", wraps[k].2, parts.concat(), wraps[k].3)];
        }
        let style = st(r);
        let module = r.pc(10);
        if exact(o, r, &style, &tt, module, &pp)? {
            o.feat(&format!("prologue.{}", n));
            o.feat(&format!("prologue.in.{}", k));
        }
        Ok(())
    });
    // large ones
    cases(cfg, o, "large", cfg.n(300, 5_000), |o, r, i| {
        let n = 1 + r.n(20_000);
        let (t, s): (Vec<Tok>, String) = match i % 5 {
            0 => {
                let c = digits(r, "ab 'c{}/é", n).replace('\'', "");
                (vec![tk(&format!("'{}'", c), K::Str)], format!("(str '{}')", c))
            }
            1 => {
                let c = digits(r, "0123456789", n);
                (vec![tk(&format!("1{}", c), K::Num)], format!("(num 1{})", c))
            }
            2 => {
                let c = digits(r, "ab_$9é", n);
                (vec![w(&format!("x{}", c))], format!("(id x{})", c))
            }
            3 => {
                let c = digits(r, "ab \n{}/é'", n);
                (vec![tk(&format!("`{}`", c), K::TplFull)], format!("(tpl {{{}}}t)", c))
            }
            _ => {
                let k = 1 + r.n(300);
                let mut t = vec![tk("`0${", K::TplHead)];
                let mut sx = String::from("(tpl {0}");
                let mut xs = String::new();
                for j in 0..k {
                    t.push(w(&format!("v{}", j)));
                    xs.push_str(&format!(" (id v{})", j));
                    if j + 1 < k {
                        t.push(tk(&format!("}}{}${{", j), K::TplMid));
                        sx.push_str(&format!(" {{{}}}", j));
                    } else {
                        t.push(tk("}z`", K::TplTail));
                        sx.push_str(" {z}t");
                    }
                }
                (t, format!("{}{})", sx, xs))
            }
        };
        let mut tt = toks("x =");
        tt.extend(t);
        tt.push(p(";").asi(1));
        if exact(o, r, &PLAIN, &tt, false, &[format!("(expr (= (id x){}))", s)])? {
            o.feat(&format!("large.{}", i % 5));
        }
        Ok(())
    });
    rep(
        "a case counts when a program with a random number, string, regular expression, template, name or directive was parsed and the tree holds its exact source text (quotes and escapes included) in the right place; distinct by text",
        &[
            "num.int", "num.zero", "num.fraction", "num.leading-dot", "num.trailing-dot", "num.hex", "num.octal", "num.binary", "str", "str.escape", "str.continuation", "re.plain", "re.flags", "tpl.full", "tpl.one", "tpl.three", "tpl.nested",
            "name.unicode", "name.ascii", "name.look-alike", "position.00", "position.05", "position.19", "prologue.3", "prologue.in.7", "large.0", "large.4",
        ],
        50_000,
    )
}
