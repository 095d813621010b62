//! Random nesting of contexts around a hole. The hole is either a statement list or an
//! expression position; prefix and suffix are known as tokens and as s-expression text.
use crate::gen::Ctx;
use crate::rng::Rng;
use crate::tok::*;

#[derive(Clone)]
pub struct Hole {
    pub pre: Vec<Tok>,
    pub post: Vec<Tok>,
    pub spre: String,
    pub spost: String,
    pub ctx: Ctx,
    pub expr: bool,
    pub names: Vec<&'static str>,
}

/// Split a small source text into tokens. Words, numbers, strings in quotes, punctuation.
pub fn toks(s: &str) -> Vec<Tok> {
    let cs: Vec<char> = s.chars().collect();
    let mut v = vec![];
    let mut i = 0;
    const P: &[&str] = &[
        ">>>=", "...", "===", "!==", "**=", "<<=", ">>=", ">>>", "=>", "==", "!=", "<=", ">=", "&&", "||", "++", "--", "+=", "-=", "*=", "/=",
        "%=", "&=", "|=", "^=", "<<", ">>", "**",
    ];
    while i < cs.len() {
        let c = cs[i];
        if c.is_whitespace() {
            i += 1;
            continue;
        }
        let st = i;
        if c.is_alphabetic() || c == '_' || c == '$' {
            while i < cs.len() && (cs[i].is_alphanumeric() || cs[i] == '_' || cs[i] == '$') {
                i += 1;
            }
            v.push(w(&cs[st..i].iter().collect::<String>()));
            continue;
        }
        if c.is_ascii_digit() {
            while i < cs.len() && (cs[i].is_alphanumeric() || cs[i] == '.') {
                i += 1;
            }
            v.push(tk(&cs[st..i].iter().collect::<String>(), K::Num));
            continue;
        }
        if c == '\'' || c == '"' {
            i += 1;
            while i < cs.len() && cs[i] != c {
                i += 1;
            }
            i += 1;
            v.push(tk(&cs[st..i.min(cs.len())].iter().collect::<String>(), K::Str));
            continue;
        }
        // templates without nested templates: `..`, `..${, }..${, }..` are written with marks « »
        if c == '`' {
            i += 1;
            while i < cs.len() && cs[i] != '`' && !(cs[i] == '$' && i + 1 < cs.len() && cs[i + 1] == '{') {
                i += 1;
            }
            if i < cs.len() && cs[i] == '`' {
                i += 1;
                v.push(tk(&cs[st..i].iter().collect::<String>(), K::TplFull));
            } else {
                i += 2;
                v.push(tk(&cs[st..i.min(cs.len())].iter().collect::<String>(), K::TplHead));
            }
            continue;
        }
        if c == '»' {
            // tail of a template
            v.push(tk("}`", K::TplTail));
            i += 1;
            continue;
        }
        let rest: String = cs[i..cs.len().min(i + 4)].iter().collect();
        let mut done = false;
        for q in P {
            if rest.starts_with(q) {
                v.push(p(q));
                i += q.len();
                done = true;
                break;
            }
        }
        if !done {
            v.push(p(&c.to_string()));
            i += 1;
        }
    }
    restrict(&mut v);
    v
}

/// no line terminator where one could change the meaning (restricted productions)
pub fn restrict(v: &mut [Tok]) {
    for i in 1..v.len() {
        let (a, b) = v.split_at_mut(i);
        let (a, b) = (&a[i - 1], &mut b[0]);
        let word = a.k == K::Word;
        if (word && matches!(a.t.as_str(), "async" | "yield" | "return" | "break" | "continue" | "throw"))
            || (b.k == K::Punct && b.t == "=>")
            || (b.k == K::Punct && (b.t == "++" || b.t == "--") && (word || a.k == K::Num || a.t == ")" || a.t == "]"))
        {
            b.no_nl = true;
        }
    }
}

/// "text before § text after", "sx before § sx after"
fn wrap(h: &mut Hole, name: &'static str, text: &str, sx: &str) {
    let (a, b) = text.split_once('§').expect("mark");
    h.pre.extend(toks(a));
    let mut post = toks(b);
    post.append(&mut h.post);
    h.post = post;
    let (a, b) = sx.split_once('§').expect("mark");
    h.spre.push_str(a);
    h.spost = format!("{}{}", b, h.spost);
    h.names.push(name);
}

fn enter_fn(c: &mut Ctx, arrow: bool, is_async: bool, gen: bool, method: bool, derived: bool) {
    c.func = true;
    c.in_loop = false;
    c.in_switch = false;
    c.labels.clear();
    c.top = false;
    c.yield_ok = gen;
    c.await_ok = is_async;
    c.yield_res = c.strict || gen;
    c.await_res = c.module || is_async;
    if !arrow {
        c.super_prop = method;
        c.super_call = derived;
        c.new_target = true;
    }
}

impl Hole {
    pub fn new(module: bool) -> Hole {
        Hole {
            pre: vec![],
            post: vec![],
            spre: String::new(),
            spost: String::new(),
            ctx: if module { Ctx::module() } else { Ctx::script() },
            expr: false,
            names: vec![],
        }
    }
    /// one more level
    pub fn step(&mut self, r: &mut Rng, uid: &mut usize) {
        *uid += 1;
        let k = *uid;
        if self.expr {
            self.step_expr(r, k)
        } else {
            self.step_stmt(r, k)
        }
    }
    pub fn step_stmt(&mut self, r: &mut Rng, k: usize) {
        let strict = self.ctx.strict;
        let n = r.n(32);
        self.stmt_wrapper(n, k, strict)
    }
    pub fn stmt_wrapper(&mut self, n: usize, k: usize, strict: bool) {
        let h = self;
        match n {
            0 => {
                wrap(h, "block", "{ § }", "(block [§])");
                h.ctx.top = false;
            }
            1 => {
                wrap(h, "if", "if (c) { § }", "(if (id c)(block [§]))");
                h.ctx.top = false;
            }
            2 => {
                wrap(h, "else", "if (c) d; else { § }", "(if (id c)(expr (id d)) else (block [§]))");
                h.ctx.top = false;
            }
            3 => {
                wrap(h, "while", "while (c) { § }", "(while (id c)(block [§]))");
                h.ctx.in_loop = true;
                h.ctx.top = false;
            }
            4 => {
                wrap(h, "do", "do { § } while (c);", "(do (block [§])(id c))");
                h.ctx.in_loop = true;
                h.ctx.top = false;
            }
            5 => {
                wrap(h, "for", "for (;;) { § }", "(for _;_;_(block [§]))");
                h.ctx.in_loop = true;
                h.ctx.top = false;
            }
            6 => {
                wrap(h, "for-in", "for (a in b) { § }", "(forin (id a)(id b)(block [§]))");
                h.ctx.in_loop = true;
                h.ctx.top = false;
            }
            7 => {
                wrap(h, "for-of", &format!("for (const x{} of b) {{ § }}", k), &format!("(forof (const ((id x{})))(id b)(block [§]))", k));
                h.ctx.in_loop = true;
                h.ctx.top = false;
            }
            8 => {
                wrap(h, "switch-case", "switch (c) { case d: § }", "(switch (id c)(case (id d)[§]))");
                h.ctx.in_switch = true;
                h.ctx.top = false;
            }
            9 => {
                wrap(h, "switch-default", "switch (c) { case 1: break; default: § }", "(switch (id c)(case (num 1)[(break )])(case _[§]))");
                h.ctx.in_switch = true;
                h.ctx.top = false;
            }
            10 => {
                wrap(h, "try", "try { § } catch (e) { }", "(try [§](catch (id e)[]))");
                h.ctx.top = false;
            }
            11 => {
                wrap(h, "catch", "try { } catch (e) { § }", "(try [](catch (id e)[§]))");
                h.ctx.top = false;
            }
            12 => {
                wrap(h, "finally", "try { } finally { § }", "(try [](finally [§]))");
                h.ctx.top = false;
            }
            13 => {
                wrap(h, "label", &format!("q{}: {{ § }}", k), &format!("(label q{}(block [§]))", k));
                h.ctx.labels.push((format!("q{}", k), false));
                h.ctx.top = false;
            }
            14 => {
                wrap(h, "label-loop", &format!("q{}: while (c) {{ § }}", k), &format!("(label q{}(while (id c)(block [§])))", k));
                h.ctx.labels.push((format!("q{}", k), true));
                h.ctx.in_loop = true;
                h.ctx.top = false;
            }
            15 => {
                wrap(h, "function", &format!("function f{}(a) {{ § }}", k), &format!("(fndecl f{}<(id a)>[§])", k));
                enter_fn(&mut h.ctx, false, false, false, false, false);
            }
            16 => {
                wrap(h, "generator", &format!("function* f{}() {{ § }}", k), &format!("(fndecl * f{}<>[§])", k));
                enter_fn(&mut h.ctx, false, false, true, false, false);
            }
            17 => {
                wrap(h, "async-function", &format!("async function f{}() {{ § }}", k), &format!("(expr (fn async f{}<>[§]))", k));
                enter_fn(&mut h.ctx, false, true, false, false, false);
            }
            18 => {
                wrap(h, "async-generator", &format!("async function* f{}() {{ § }}", k), &format!("(expr (fn async * f{}<>[§]))", k));
                enter_fn(&mut h.ctx, false, true, true, false, false);
            }
            19 if !strict => {
                wrap(h, "strict-function", &format!("function f{}() {{ 'use strict'; § }}", k), &format!("(fndecl f{}<>[(dir (str 'use strict'))§])", k));
                enter_fn(&mut h.ctx, false, false, false, false, false);
                h.ctx.strict = true;
                h.ctx.yield_res = true;
            }
            20 => {
                wrap(h, "class-method", &format!("class A{} {{ m() {{ § }} }}", k), &format!("(classdecl A{}(method (id m)(fn <>[§])))", k));
                enter_fn(&mut h.ctx, false, false, false, true, false);
                h.ctx.strict = true;
                h.ctx.yield_res = true;
            }
            21 => {
                wrap(
                    h,
                    "derived-constructor",
                    &format!("class A{} extends B {{ constructor() {{ § }} }}", k),
                    &format!("(classdecl A{} extends (id B)(ctor (id constructor)(fn <>[§])))", k),
                );
                enter_fn(&mut h.ctx, false, false, false, true, true);
                h.ctx.strict = true;
                h.ctx.yield_res = true;
            }
            22 => {
                wrap(h, "class-static-getter", &format!("class A{} {{ static get m() {{ § }} }}", k), &format!("(classdecl A{}(get (id m)(fn <>[§])))", k));
                enter_fn(&mut h.ctx, false, false, false, true, false);
                h.ctx.strict = true;
                h.ctx.yield_res = true;
            }
            23 => {
                wrap(h, "expression-statement", "a = § ;", "(expr (= (id a)§))");
                h.expr = true;
                h.ctx.top = false;
            }
            24 => {
                wrap(h, "var-init", &format!("var v{} = § ;", k), &format!("(var ((id v{}) = §))", k));
                h.expr = true;
                h.ctx.top = false;
            }
            25 => {
                wrap(h, "if-test", "if (§) b;", "(if §(expr (id b)))");
                h.expr = true;
                h.ctx.top = false;
            }
            26 => {
                wrap(h, "for-update", "for (;; §) b;", "(for _;_;§(expr (id b)))");
                h.expr = true;
                h.ctx.top = false;
            }
            27 => {
                wrap(h, "do-while-test", "do b; while (§);", "(do (expr (id b))§)");
                h.expr = true;
                h.ctx.top = false;
            }
            28 => {
                wrap(h, "throw", "throw a, § ;", "(throw (seq (id a)§))");
                h.expr = true;
                h.ctx.top = false;
            }
            29 if h.ctx.func => {
                wrap(h, "return", "return a, § ;", "(return (seq (id a)§))");
                h.expr = true;
                h.ctx.top = false;
            }
            30 => {
                wrap(h, "case-test", "switch (c) { case § : d; }", "(switch (id c)(case §[(expr (id d))]))");
                h.expr = true;
                h.ctx.top = false;
            }
            31 if !strict => {
                wrap(h, "with", "with (c) { § }", "(with (id c)(block [§]))");
                h.ctx.top = false;
            }
            _ => {
                wrap(h, "block", "{ § }", "(block [§])");
                h.ctx.top = false;
            }
        }
    }
    pub fn step_expr(&mut self, r: &mut Rng, k: usize) {
        let n = r.n(31);
        self.expr_wrapper(n, k)
    }
    pub fn expr_wrapper(&mut self, n: usize, k: usize) {
        let h = self;
        match n {
            0 => wrap(h, "paren", "(§)", "§"),
            1 => wrap(h, "array", "[a, §, ]", "(arr (id a) §)"),
            2 => wrap(h, "array-spread", "[...§]", "(arr (spread §))"),
            3 => wrap(h, "object-value", "{ a: § }", "(obj(init (id a)§))"),
            4 => wrap(h, "computed-key", "{ [§]: a }", "(obj(init [§](id a)))"),
            5 => wrap(h, "object-spread", "{ ...§ }", "(obj(spread §))"),
            6 => wrap(h, "argument", "f(a, §)", "(call (id f)<(id a)§>)"),
            7 => wrap(h, "argument-spread", "f(...§)", "(call (id f)<(spread §)>)"),
            8 => wrap(h, "new-argument", "new F(§)", "(new (id F)<§>)"),
            9 => wrap(h, "index", "a[§]", "(. (id a)[§])"),
            10 => wrap(h, "conditional-test", "(§) ? b : c", "(? §(id b)(id c))"),
            11 => wrap(h, "conditional-yes", "a ? § : c", "(? (id a)§(id c))"),
            12 => wrap(h, "conditional-no", "a ? b : §", "(? (id a)(id b)§)"),
            13 => wrap(h, "binary-right", "a + (§)", "(+ (id a)§)"),
            14 => wrap(h, "logical-left", "(§) && b", "(&& §(id b))"),
            15 => wrap(h, "unary", "typeof (§)", "(utypeof §)"),
            16 => wrap(h, "assign-right", "a = §", "(= (id a)§)"),
            17 => wrap(h, "compound-right", "a.b += §", "(+= (. (id a)(id b))§)"),
            18 => wrap(h, "template", "`t${ § »", "(tpl {t} {}t §)"),
            19 => wrap(h, "tagged-template", "tag`${ § »", "(tag (id tag)(tpl {} {}t §))"),
            20 => {
                wrap(h, "function-expression", "function () { § }", "(fn <>[§])");
                enter_fn(&mut h.ctx, false, false, false, false, false);
                h.expr = false;
            }
            21 => {
                wrap(h, "generator-expression", "function* () { § }", "(fn * <>[§])");
                enter_fn(&mut h.ctx, false, false, true, false, false);
                h.expr = false;
            }
            22 => {
                wrap(h, "async-function-expression", "async function () { § }", "(fn async <>[§])");
                enter_fn(&mut h.ctx, false, true, false, false, false);
                h.expr = false;
            }
            23 => {
                wrap(h, "arrow-block", "(a) => { § }", "(arrow<(id a)>[§])");
                enter_fn(&mut h.ctx, true, false, false, false, false);
                h.expr = false;
            }
            24 => {
                wrap(h, "async-arrow-block", "async (a) => { § }", "(arrow async<(id a)>[§])");
                enter_fn(&mut h.ctx, true, true, false, false, false);
                h.expr = false;
            }
            25 => {
                let c = h.ctx.clone();
                wrap(h, "arrow-expression", "a => (§)", "(arrow<(id a)>§)");
                enter_fn(&mut h.ctx, true, false, false, false, false);
                h.ctx.func = c.func;
            }
            26 => {
                wrap(h, "object-method", "{ m() { § } }", "(obj(init method (id m)(fn <>[§])))");
                enter_fn(&mut h.ctx, false, false, false, true, false);
                h.expr = false;
            }
            27 => {
                wrap(h, "object-getter", "{ get m() { § } }", "(obj(get (id m)(fn <>[§])))");
                enter_fn(&mut h.ctx, false, false, false, true, false);
                h.expr = false;
            }
            28 => {
                wrap(h, "object-async-generator", "{ async *m() { § } }", "(obj(init method (id m)(fn async * <>[§])))");
                enter_fn(&mut h.ctx, false, true, true, true, false);
                h.expr = false;
            }
            29 => {
                wrap(h, "class-expression", "class { static m() { § } }", "(class (method (id m)(fn <>[§])))");
                enter_fn(&mut h.ctx, false, false, false, true, false);
                h.ctx.strict = true;
                h.ctx.yield_res = true;
                h.expr = false;
            }
            _ => {
                // a default value is an expression in parameters: no yield or await there
                wrap(h, "parameter-default", &format!("function (p{} = §) {{ }}", k), &format!("(fn <(def (id p{})§)>[])", k));
                h.ctx.yield_ok = false;
                h.ctx.await_ok = false;
                h.ctx.yield_res = h.ctx.strict;
                h.ctx.await_res = h.ctx.module;
                h.ctx.super_prop = false;
                h.ctx.super_call = false;
                h.ctx.new_target = true;
            }
        }
    }
    /// a chain of `depth` levels that ends in a position of the wanted sort
    pub fn chain(r: &mut Rng, depth: usize, module: bool, expr: bool) -> Hole {
        let mut uid = 0;
        let mut h = Hole::new(module);
        for _ in 0..depth {
            h.step(r, &mut uid);
        }
        let mut guard = 0;
        while h.expr != expr {
            guard += 1;
            if guard > 50 {
                if expr {
                    h.stmt_wrapper(23, 999, true);
                } else {
                    h.expr_wrapper(23, 999);
                }
            } else if expr {
                let n = 23 + r.n(8);
                uid += 1;
                let s = h.ctx.strict;
                h.stmt_wrapper(n, uid, s);
            } else {
                let n = 20 + r.n(10);
                uid += 1;
                h.expr_wrapper(n, uid);
            }
        }
        h
    }
    pub fn fill(&self, inner: &[Tok]) -> Vec<Tok> {
        let mut v = self.pre.clone();
        v.extend_from_slice(inner);
        v.extend(self.post.iter().cloned());
        v
    }
    pub fn sx(&self, inner: &str) -> String {
        format!("{}{}{}", self.spre, inner, self.spost)
    }
}
