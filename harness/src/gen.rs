//! Grammar-directed generator. Every production emits its tokens and, at the same time
//! and independently of any parser, the s-expression of the tree that those tokens mean.
//! The shape is decided first and the text follows (operands get exactly the parentheses
//! their precedence requires), so the s-expression is a specification, not a parse.
use crate::rng::Rng;
use crate::tok::*;
use std::collections::{BTreeMap, HashSet};

#[derive(Clone)]
pub struct Ctx {
    pub strict: bool,
    pub module: bool,
    pub yield_ok: bool,
    pub await_ok: bool,
    pub yield_res: bool,
    pub await_res: bool,
    pub func: bool,
    pub in_loop: bool,
    pub in_switch: bool,
    pub super_prop: bool,
    pub super_call: bool,
    pub new_target: bool,
    pub labels: Vec<(String, bool)>,
    /// statement list of the program itself
    pub top: bool,
}

impl Ctx {
    pub fn script() -> Ctx {
        Ctx {
            strict: false,
            module: false,
            yield_ok: false,
            await_ok: false,
            yield_res: false,
            await_res: false,
            func: false,
            in_loop: false,
            in_switch: false,
            super_prop: false,
            super_call: false,
            new_target: false,
            labels: vec![],
            top: true,
        }
    }
    pub fn module() -> Ctx {
        Ctx { strict: true, module: true, await_res: true, yield_res: true, ..Ctx::script() }
    }
}

pub struct E {
    pub t: Vec<Tok>,
    pub s: String,
    pub prec: u8,
    pub bare_in: bool,
    /// 0 no target, 1 identifier, 2 member
    pub tgt: u8,
}
pub struct S {
    pub t: Vec<Tok>,
    pub s: String,
    pub open_if: bool,
}
fn e(t: Vec<Tok>, s: String, prec: u8) -> E {
    E { t, s, prec, bare_in: false, tgt: 0 }
}
fn s(t: Vec<Tok>, sx: String) -> S {
    S { t, s: sx, open_if: false }
}

macro_rules! kinds {
    ($arr:ident, $n:ident: $($id:ident = $name:expr, $w:expr;)*) => {
        #[allow(non_camel_case_types, dead_code)]
        #[derive(Clone, Copy, PartialEq, Debug)]
        pub enum $n { $($id),* }
        pub const $arr: &[(&str, u32, $n)] = &[$(($name, $w, $n::$id)),*];
    };
}
kinds! { XK, X:
    Ident = "ident", 30;
    Num = "number", 8;
    Str = "string", 8;
    Re = "regexp", 3;
    Tpl = "template", 4;
    Lit = "null-bool", 4;
    This = "this", 3;
    Arr = "array", 5;
    Obj = "object", 7;
    Fn = "function", 3;
    AFn = "async-function", 1;
    GFn = "generator-function", 1;
    AGFn = "async-generator-function", 1;
    Class = "class-expr", 2;
    Arrow = "arrow", 5;
    AArrow = "async-arrow", 2;
    Assign = "assign", 6;
    AssignPat = "assign-pattern", 3;
    Comp = "compound-assign", 4;
    Cond = "conditional", 5;
    Logic = "logical", 6;
    Bin = "binary", 14;
    Unary = "unary", 5;
    Update = "update", 4;
    Call = "call", 12;
    New = "new", 4;
    Member = "member", 10;
    Index = "computed-member", 5;
    Tag = "tagged-template", 2;
    Seq = "sequence", 3;
    Paren = "paren", 3;
    Yield = "yield", 10;
    Await = "await", 10;
    Super = "super", 8;
    NewTarget = "new.target", 3;
    Import = "import()", 1;
}
kinds! { SK, T:
    Expr = "expr", 30;
    Var = "var", 8;
    Let = "let", 6;
    Const = "const", 6;
    Block = "block", 4;
    Empty = "empty", 2;
    Debugger = "debugger", 1;
    If = "if", 8;
    For = "for", 5;
    ForIn = "for-in", 4;
    ForOf = "for-of", 4;
    ForAwait = "for-await", 8;
    While = "while", 3;
    Do = "do-while", 3;
    Switch = "switch", 3;
    Try = "try", 4;
    Throw = "throw", 2;
    Return = "return", 8;
    Break = "break", 6;
    Continue = "continue", 5;
    Label = "label", 3;
    Fn = "fn-decl", 5;
    AFn = "async-fn-decl", 2;
    GFn = "generator-decl", 2;
    AGFn = "async-generator-decl", 1;
    Class = "class-decl", 4;
    With = "with", 1;
}
pub const NX: usize = X::Import as usize + 1;
pub const NT: usize = T::With as usize + 1;

#[derive(Clone)]
pub struct Prof {
    pub x: [u32; NX],
    pub t: [u32; NT],
    pub depth: u32,
    pub fuel: i32,
    pub items: usize,
    pub module_pc: u32,
    pub strict_pc: u32,
    pub names_pc: u32,
    pub paren_pc: u32,
    /// percent of module items that are import / export declarations
    pub impexp_pc: u32,
    pub import_call: bool,
}
impl Default for Prof {
    fn default() -> Self {
        let mut x = [0; NX];
        let mut t = [0; NT];
        for (i, k) in XK.iter().enumerate() {
            x[i] = k.1;
        }
        for (i, k) in SK.iter().enumerate() {
            t[i] = k.1;
        }
        Prof {
            x,
            t,
            depth: 7,
            fuel: 60,
            items: 5,
            module_pc: 25,
            strict_pc: 12,
            names_pc: 6,
            paren_pc: 3,
            impexp_pc: 40,
            import_call: true,
        }
    }
}
impl Prof {
    pub fn boost(mut self, xs: &[X], ts: &[T], by: u32) -> Self {
        for k in xs {
            self.x[*k as usize] *= by;
        }
        for k in ts {
            self.t[*k as usize] *= by;
        }
        self
    }
}

pub struct Prog {
    pub toks: Vec<Tok>,
    /// first token of every program part, plus the end
    pub bounds: Vec<usize>,
    pub parts: Vec<String>,
    pub module: bool,
    pub strict: bool,
}

const SIMPLE: &[&str] = &[
    "a", "b", "c", "d", "x", "y", "z", "foo", "bar", "$", "_", "$1", "_a", "obj", "arr", "fn", "ñ", "été", "变量", "undefined", "NaN",
    "Infinity", "longIdentifierName", "x1", "iff", "newer", "inn", "functions", "trueish", "nullable", "classy", "lets",
];
const ODD: &[&str] = &["\\u0061b", "\\u{62}c", "a\\u0062"];
pub const CONTEXTUAL: &[&str] = &[
    "of", "get", "set", "from", "as", "target", "async", "let", "static", "yield", "await", "implements", "interface", "package",
    "private", "protected", "public", "arguments", "eval", "constructor", "prototype", "meta", "name", "default_", "type",
];
const STRICT_RES: &[&str] =
    &["let", "static", "yield", "implements", "interface", "package", "private", "protected", "public"];
const RESERVED: &[&str] = &[
    "if", "for", "class", "function", "new", "delete", "typeof", "in", "instanceof", "null", "true", "false", "this", "super", "default",
    "return", "var", "let", "const", "static", "await", "yield", "import", "export", "enum", "while", "do", "try", "catch", "finally", "throw",
    "switch", "case", "break", "continue", "else", "with", "void", "debugger", "extends",
];
const NUMS: &[&str] = &[
    "0", "1", "42", "3.14", ".5", "5.", "1e3", "1E-3", "0x1F", "0XaB", "0b101", "0B0", "0o17", "0O7", "1.5e+10", "123456789", "0.0", "1.e2", "9007199254740993",
];
const STRS: &[&str] = &[
    "'a'", "\"b\"", "''", "\"\"", "'it\\'s'", "\"q\\\"q\"", "'\\n'", "'\\u0041'", "'\\u{1F600}'", "'a\\\nb'", "'é日本😀'", "'use strict'",
    "\"use strict\"", "'</script>'", "'\\x41'", "'\\0'", "'//'", "\"/* x */\"", "'`'", "\"'\"", "'\"'", "'${a}'", "'\\\\'", "'use asm'", "' '",
];
const RES: &[(&str, &str)] = &[
    ("a", ""), ("[/]", "g"), ("\\/", ""), ("a|b", "gi"), ("(?:x)+", "u"), ("[^\\]]*", "m"), ("\\d{1,2}", "y"), ("=", ""), ("^$", "s"),
    ("'", ""), ("\"", ""), ("`", ""), ("\\(", "g"), ("x*", "gimuy"), ("[\\]/]", ""),
];
const QUASIS: &[&str] =
    &["", "a", " b ", "\\`", "\\${", "$", "{", "}", "\n", "'\"", "//", "é", "\\n", "/*", "$ {", "x\ny", "a\r\nb", "\\u0041", "}}", "$$"];

pub const BINOPS: &[(&str, u8)] = &[
    ("|", 5), ("^", 6), ("&", 7), ("==", 8), ("!=", 8), ("===", 8), ("!==", 8), ("<", 9), (">", 9), ("<=", 9), (">=", 9),
    ("instanceof", 9), ("in", 9), ("<<", 10), (">>", 10), (">>>", 10), ("+", 11), ("-", 11), ("*", 12), ("/", 12), ("%", 12), ("**", 13),
];
pub const COMPOUND: &[&str] = &["+=", "-=", "*=", "/=", "%=", "<<=", ">>=", ">>>=", "|=", "^=", "&=", "**="];
pub const UNOPS: &[&str] = &["-", "+", "!", "~", "typeof", "void", "delete"];

fn op(s: &str) -> Tok {
    if s.as_bytes()[0].is_ascii_alphabetic() {
        w(s)
    } else {
        p(s)
    }
}

pub fn paren(x: E) -> E {
    let mut t = vec![p("(")];
    t.extend(x.t);
    t.push(p(")"));
    E { t, s: x.s, prec: 19, bare_in: false, tgt: x.tgt }
}

fn first_no_nl(mut t: Vec<Tok>) -> Vec<Tok> {
    if let Some(f) = t.first_mut() {
        f.no_nl = true;
    }
    t
}

#[derive(Clone, Copy, Default)]
struct FnO {
    is_async: bool,
    gen: bool,
    arrow: bool,
    method: bool,
    derived_ctor: bool,
    /// None: free, Some(n): exactly n plain parameters (accessors)
    nparams: Option<usize>,
}
struct FnR {
    params: Vec<Tok>,
    body: Vec<Tok>,
    sp: String,
    sb: String,
    /// a single plain identifier
    single: bool,
}

pub struct Gen {
    pub r: Rng,
    pub prof: Prof,
    pub fuel: i32,
    ctr: usize,
    used: HashSet<String>,
    exported: HashSet<String>,
    declared: Vec<String>,
    default_done: bool,
    pub feats: BTreeMap<String, u64>,
    pub pairs: HashSet<u16>,
    path: Vec<u8>,
    pub nodes: usize,
    pub max_depth: usize,
}

impl Gen {
    pub fn new(r: Rng, prof: Prof) -> Gen {
        let fuel = prof.fuel;
        Gen {
            r,
            prof,
            fuel,
            ctr: 0,
            used: HashSet::new(),
            exported: HashSet::new(),
            declared: vec![],
            default_done: false,
            feats: BTreeMap::new(),
            pairs: HashSet::new(),
            path: vec![],
            nodes: 0,
            max_depth: 0,
        }
    }
    pub fn feat(&mut self, f: &str) {
        *self.feats.entry(f.to_string()).or_insert(0) += 1;
    }
    fn enter(&mut self, k: u8) {
        let parent = self.path.last().copied().unwrap_or(255);
        self.pairs.insert((parent as u16) << 8 | k as u16);
        self.path.push(k);
        self.nodes += 1;
        self.max_depth = self.max_depth.max(self.path.len());
        self.fuel -= 1;
    }
    fn leave(&mut self) {
        self.path.pop();
    }

    // ---------------------------------------------------------------- names
    pub fn word_allowed(n: &str, c: &Ctx) -> bool {
        if c.strict && STRICT_RES.contains(&n) {
            return false;
        }
        if n == "yield" && (c.yield_res || c.yield_ok) {
            return false;
        }
        if n == "await" && (c.await_res || c.await_ok || c.module) {
            return false;
        }
        true
    }
    /// a name to refer to
    pub fn reference(&mut self, c: &Ctx) -> String {
        if self.r.pc(self.prof.names_pc) {
            let n = self.r.pick(CONTEXTUAL);
            if Self::word_allowed(n, c) {
                self.feat("name.contextual");
                return n.to_string();
            }
        }
        if self.r.pc(1) {
            return self.r.pick(ODD).to_string();
        }
        self.r.pick(SIMPLE).to_string()
    }
    /// a name to assign to
    fn target_name(&mut self, c: &Ctx) -> String {
        loop {
            let n = self.reference(c);
            if c.strict && (n == "eval" || n == "arguments") {
                continue;
            }
            return n;
        }
    }
    /// a fresh name to bind
    pub fn binding(&mut self, c: &Ctx, lexical: bool) -> String {
        if self.r.pc(self.prof.names_pc) {
            let n = self.r.pick(CONTEXTUAL);
            if Self::word_allowed(n, c)
                && !(c.strict && (n == "eval" || n == "arguments"))
                && !(lexical && n == "let")
                && n != "arguments"
                && self.used.insert(n.to_string())
            {
                self.feat("binding.contextual");
                return n.to_string();
            }
        }
        self.ctr += 1;
        let b = ["v", "w", "_b", "$n", "prm", "ñb"][self.r.n(6)];
        format!("{}{}", b, self.ctr)
    }
    fn prop_name(&mut self) -> String {
        if self.r.pc(25) {
            self.feat("name.reserved-as-property");
            return self.r.pick(RESERVED).to_string();
        }
        if self.r.pc(20) {
            return self.r.pick(CONTEXTUAL).to_string();
        }
        self.r.pick(SIMPLE).to_string()
    }

    // ---------------------------------------------------------------- expressions
    fn at(&mut self, x: E, min: u8) -> E {
        if x.prec < min || self.r.pc(self.prof.paren_pc) {
            paren(x)
        } else {
            x
        }
    }
    pub fn assign_expr(&mut self, c: &Ctx, d: u32) -> E {
        self.expr(c, d, 1)
    }
    fn leaf(&mut self, c: &Ctx) -> E {
        match self.r.n(10) {
            0 => self.node(c, 0, X::Num),
            1 => self.node(c, 0, X::Str),
            2 => self.node(c, 0, X::This),
            3 => self.node(c, 0, X::Lit),
            _ => self.node(c, 0, X::Ident),
        }
    }
    pub fn expr(&mut self, c: &Ctx, d: u32, min: u8) -> E {
        if d == 0 || self.fuel <= 0 {
            let x = self.leaf(c);
            return self.at(x, min);
        }
        let mut ws = self.prof.x;
        if !c.yield_ok {
            ws[X::Yield as usize] = 0;
        }
        if !c.await_ok {
            ws[X::Await as usize] = 0;
        }
        if !c.super_prop && !c.super_call {
            ws[X::Super as usize] = 0;
        }
        if !c.new_target {
            ws[X::NewTarget as usize] = 0;
        }
        if !self.prof.import_call {
            ws[X::Import as usize] = 0;
        }
        let k = XK[self.r.weighted(&ws)].2;
        let x = self.node(c, d, k);
        self.at(x, min)
    }
    pub fn node(&mut self, c: &Ctx, d: u32, k: X) -> E {
        self.enter(k as u8);
        let name = XK[k as usize].0;
        *self.feats.entry(format!("expr.{}", name)).or_insert(0) += 1;
        let x = self.node_(c, d, k);
        self.leave();
        x
    }
    fn node_(&mut self, c: &Ctx, d: u32, k: X) -> E {
        let dd = d.saturating_sub(1);
        match k {
            X::Ident => {
                let n = self.reference(c);
                let mut x = e(vec![w(&n)], format!("(id {})", n), 19);
                x.tgt = if c.strict && (n == "eval" || n == "arguments") { 0 } else { 1 };
                x
            }
            X::Num => {
                let n = self.r.pick(NUMS);
                e(vec![tk(n, K::Num)], format!("(num {})", n), 19)
            }
            X::Str => {
                let n = self.r.pick(STRS);
                e(vec![tk(n, K::Str)], format!("(str {})", n), 19)
            }
            X::Re => {
                let (a, b) = RES[self.r.n(RES.len())];
                e(vec![tk(&format!("/{}/{}", a, b), K::Re)], format!("(re {} {})", a, b), 19)
            }
            X::Tpl => {
                let (t, s) = self.template(c, dd);
                e(t, s, 19)
            }
            X::Lit => {
                let n = self.r.pick(&["null", "true", "false"]);
                e(vec![w(n)], if n == "null" { "(null)".into() } else { format!("(bool {})", n) }, 19)
            }
            X::This => e(vec![w("this")], "(this)".into(), 19),
            X::Arr => {
                let n = self.r.n(4);
                let mut t = vec![p("[")];
                let mut sx = "(arr".to_string();
                for i in 0..n {
                    sx.push(' ');
                    if self.r.pc(12) {
                        self.feat("array.hole");
                        sx.push('_');
                        t.push(p(","));
                        continue;
                    }
                    let x = self.elem(c, dd);
                    t.extend(x.t);
                    sx.push_str(&x.s);
                    if i + 1 < n || self.r.pc(15) {
                        t.push(p(","));
                    }
                }
                t.push(p("]"));
                sx.push(')');
                e(t, sx, 19)
            }
            X::Obj => self.object(c, dd),
            X::Fn => self.fn_expr(c, dd, false, false),
            X::AFn => self.fn_expr(c, dd, true, false),
            X::GFn => self.fn_expr(c, dd, false, true),
            X::AGFn => self.fn_expr(c, dd, true, true),
            X::Class => {
                let named = self.r.pc(50);
                let (t, sx) = self.class(c, dd, "(class ", named);
                e(t, sx, 19)
            }
            X::Arrow => self.arrow(c, dd, false),
            X::AArrow => self.arrow(c, dd, true),
            X::Assign => {
                let l = self.target(c, dd);
                let r = self.expr(c, dd, 1);
                let mut t = l.t;
                t.push(p("="));
                t.extend(r.t);
                E { t, s: format!("(= {}{})", l.s, r.s), prec: 1, bare_in: l.bare_in | r.bare_in, tgt: 0 }
            }
            X::AssignPat => {
                let (mut t, ls) = self.apat(c, dd);
                let r = self.expr(c, dd, 1);
                t.push(p("="));
                t.extend(r.t);
                E { t, s: format!("(= {}{})", ls, r.s), prec: 1, bare_in: r.bare_in, tgt: 0 }
            }
            X::Comp => {
                let l = self.target(c, dd);
                let r = self.expr(c, dd, 1);
                let o = self.r.pick(COMPOUND);
                self.feat(&format!("op.{}", o));
                let mut t = l.t;
                t.push(p(o));
                t.extend(r.t);
                E { t, s: format!("({} {}{})", o, l.s, r.s), prec: 1, bare_in: l.bare_in | r.bare_in, tgt: 0 }
            }
            X::Cond => {
                let a = self.expr(c, dd, 3);
                let b = self.expr(c, dd, 1);
                let f = self.expr(c, dd, 1);
                let mut t = a.t;
                t.push(p("?"));
                t.extend(b.t);
                t.push(p(":"));
                t.extend(f.t);
                E { t, s: format!("(? {}{}{})", a.s, b.s, f.s), prec: 2, bare_in: a.bare_in | b.bare_in | f.bare_in, tgt: 0 }
            }
            X::Logic => {
                let (o, pr) = if self.r.pc(50) { ("||", 3) } else { ("&&", 4) };
                self.binary(c, dd, o, pr)
            }
            X::Bin => {
                let (o, pr) = BINOPS[self.r.n(BINOPS.len())];
                self.binary(c, dd, o, pr)
            }
            X::Unary => {
                let mut o = self.r.pick(UNOPS);
                let x = self.expr(c, dd, 14);
                if o == "delete" && c.strict && x.tgt == 1 || o == "delete" && c.strict && x.s.starts_with("(id ") {
                    o = "void";
                }
                self.feat(&format!("op.unary.{}", o));
                let mut t = vec![op(o)];
                t.extend(x.t);
                E { t, s: format!("(u{} {})", o, x.s), prec: 14, bare_in: x.bare_in, tgt: 0 }
            }
            X::Update => {
                let x = self.target(c, dd);
                let o = if self.r.pc(50) { "++" } else { "--" };
                if self.r.pc(50) {
                    self.feat("update.prefix");
                    let mut t = vec![p(o)];
                    t.extend(x.t);
                    e(t, format!("(pre{}{})", o, x.s), 15)
                } else {
                    self.feat("update.postfix");
                    let mut t = x.t;
                    t.push(p(o).nn());
                    e(t, format!("(post{}{})", o, x.s), 15)
                }
            }
            X::Call => {
                let f = self.expr(c, dd, 17);
                let (at, asx) = self.args(c, dd);
                let mut t = f.t;
                t.extend(at);
                e(t, format!("(call {}<{}>)", f.s, asx), 17)
            }
            X::New => {
                let f = self.expr(c, dd, 18);
                let mut t = vec![w("new")];
                t.extend(f.t);
                if self.r.pc(25) {
                    self.feat("new.no-args");
                    e(t, format!("(new {}<>)", f.s), 16)
                } else {
                    let (at, asx) = self.args(c, dd);
                    t.extend(at);
                    e(t, format!("(new {}<{}>)", f.s, asx), 18)
                }
            }
            X::Member => {
                let o = self.expr(c, dd, 17);
                let n = self.prop_name();
                let pr = o.prec.min(18);
                let mut t = o.t;
                t.push(p("."));
                t.push(w(&n));
                E { t, s: format!("(. {}(id {}))", o.s, n), prec: pr, bare_in: false, tgt: 2 }
            }
            X::Index => {
                let o = self.expr(c, dd, 17);
                let i = self.expr(c, dd, 0);
                let pr = o.prec.min(18);
                let mut t = o.t;
                t.push(p("["));
                t.extend(i.t);
                t.push(p("]"));
                E { t, s: format!("(. {}[{}])", o.s, i.s), prec: pr, bare_in: false, tgt: 2 }
            }
            X::Tag => {
                let o = self.expr(c, dd, 17);
                let (tt, ts) = self.template(c, dd);
                let pr = o.prec.min(18);
                let mut t = o.t;
                t.extend(tt);
                e(t, format!("(tag {}{})", o.s, ts), pr)
            }
            X::Seq => {
                let n = 2 + self.r.n(2);
                let mut t = vec![];
                let mut sx = "(seq ".to_string();
                let mut bi = false;
                for i in 0..n {
                    let x = self.expr(c, dd, 1);
                    if i > 0 {
                        t.push(p(","));
                    }
                    t.extend(x.t);
                    sx.push_str(&x.s);
                    bi |= x.bare_in;
                }
                sx.push(')');
                E { t, s: sx, prec: 0, bare_in: bi, tgt: 0 }
            }
            X::Paren => {
                let x = self.expr(c, dd, 0);
                paren(x)
            }
            X::Yield => match self.r.n(5) {
                0 => e(vec![w("yield")], "(yield )".into(), 1),
                1 => {
                    self.feat("yield.delegate");
                    let x = self.expr(c, dd, 1);
                    let mut t = vec![w("yield"), p("*").nn()];
                    t.extend(x.t);
                    E { t, s: format!("(yield* {})", x.s), prec: 1, bare_in: x.bare_in, tgt: 0 }
                }
                _ => {
                    let x = self.expr(c, dd, 1);
                    let mut t = vec![w("yield")];
                    t.extend(first_no_nl(x.t));
                    E { t, s: format!("(yield {})", x.s), prec: 1, bare_in: x.bare_in, tgt: 0 }
                }
            },
            X::Await => {
                let x = self.expr(c, dd, 14);
                let mut t = vec![w("await")];
                t.extend(x.t);
                E { t, s: format!("(await {})", x.s), prec: 14, bare_in: x.bare_in, tgt: 0 }
            }
            X::Super => {
                if c.super_call && (!c.super_prop || self.r.pc(40)) {
                    self.feat("super.call");
                    let (at, asx) = self.args(c, dd);
                    let mut t = vec![w("super")];
                    t.extend(at);
                    e(t, format!("(call (super)<{}>)", asx), 17)
                } else if self.r.pc(70) {
                    let n = self.prop_name();
                    E { t: vec![w("super"), p("."), w(&n)], s: format!("(. (super)(id {}))", n), prec: 18, bare_in: false, tgt: 2 }
                } else {
                    let i = self.expr(c, dd, 0);
                    let mut t = vec![w("super"), p("[")];
                    t.extend(i.t);
                    t.push(p("]"));
                    E { t, s: format!("(. (super)[{}])", i.s), prec: 18, bare_in: false, tgt: 2 }
                }
            }
            X::NewTarget => e(vec![w("new"), p("."), w("target")], "(meta new.target)".into(), 18),
            X::Import => {
                let x = self.expr(c, dd, 1);
                let mut t = vec![w("import"), p("(")];
                t.extend(x.t);
                t.push(p(")"));
                e(t, format!("(call (id import)<{}>)", x.s), 17)
            }
        }
    }
    fn binary(&mut self, c: &Ctx, d: u32, o: &str, pr: u8) -> E {
        self.feat(&format!("op.{}", o));
        let (l, r) = if o == "**" {
            (self.expr(c, d, 15), self.expr(c, d, 13))
        } else {
            (self.expr(c, d, pr), self.expr(c, d, pr + 1))
        };
        let mut t = l.t;
        t.push(op(o));
        t.extend(r.t);
        E { t, s: format!("({} {}{})", o, l.s, r.s), prec: pr, bare_in: o == "in" || l.bare_in || r.bare_in, tgt: 0 }
    }
    /// array element / argument
    fn elem(&mut self, c: &Ctx, d: u32) -> E {
        if self.r.pc(12) {
            self.feat("spread");
            let x = self.expr(c, d, 1);
            let mut t = vec![p("...")];
            t.extend(x.t);
            e(t, format!("(spread {})", x.s), 1)
        } else {
            self.expr(c, d, 1)
        }
    }
    fn args(&mut self, c: &Ctx, d: u32) -> (Vec<Tok>, String) {
        let n = self.r.n(4);
        let mut t = vec![p("(")];
        let mut sx = String::new();
        for i in 0..n {
            let x = self.elem(c, d);
            t.extend(x.t);
            sx.push_str(&x.s);
            if i + 1 < n || self.r.pc(8) {
                t.push(p(","));
            }
        }
        t.push(p(")"));
        (t, sx)
    }
    fn template(&mut self, c: &Ctx, d: u32) -> (Vec<Tok>, String) {
        let n = if d == 0 { 0 } else { self.r.weighted(&[4, 4, 2, 1]) };
        self.feat(["template.0", "template.1", "template.2", "template.3"][n]);
        let qs: Vec<&str> = (0..n + 1).map(|_| *self.r.pick(&QUASIS.iter().collect::<Vec<_>>())).collect();
        let mut sx = "(tpl".to_string();
        for (i, q) in qs.iter().enumerate() {
            sx.push_str(&format!(" {{{}{}", q, if i == n { "}t" } else { "}" }));
        }
        let mut t = vec![];
        if n == 0 {
            t.push(tk(&format!("`{}`", qs[0]), K::TplFull));
        } else {
            t.push(tk(&format!("`{}${{", qs[0]), K::TplHead));
            for i in 0..n {
                let x = self.expr(c, d, 0);
                t.extend(x.t);
                sx.push(' ');
                sx.push_str(&x.s);
                if i + 1 == n {
                    t.push(tk(&format!("}}{}`", qs[i + 1]), K::TplTail));
                } else {
                    t.push(tk(&format!("}}{}${{", qs[i + 1]), K::TplMid));
                }
            }
        }
        sx.push(')');
        (t, sx)
    }
    /// a simple assignment target
    fn target(&mut self, c: &Ctx, d: u32) -> E {
        if d == 0 || self.fuel <= 0 || self.r.pc(55) {
            let n = self.target_name(c);
            let mut x = e(vec![w(&n)], format!("(id {})", n), 19);
            x.tgt = 1;
            if self.r.pc(self.prof.paren_pc) {
                x = paren(x);
            }
            x
        } else {
            let k = if (c.super_prop) && self.r.pc(20) {
                let n = self.prop_name();
                return E { t: vec![w("super"), p("."), w(&n)], s: format!("(. (super)(id {}))", n), prec: 18, bare_in: false, tgt: 2 };
            } else if self.r.pc(60) {
                X::Member
            } else {
                X::Index
            };
            let x = self.node(c, d, k);
            if self.r.pc(self.prof.paren_pc) {
                paren(x)
            } else {
                x
            }
        }
    }

    // ---------------------------------------------------------------- keys and objects
    /// (tokens, s-expression with brackets when computed, plain name if it has one)
    fn key(&mut self, c: &Ctx, d: u32) -> (Vec<Tok>, String, Option<String>) {
        match self.r.weighted(&[60, 12, 10, 18]) {
            0 => {
                let n = self.prop_name();
                (vec![w(&n)], format!("(id {})", n), Some(n))
            }
            1 => {
                let n = self.r.pick(STRS);
                self.feat("key.string");
                (vec![tk(n, K::Str)], format!("(str {})", n), Some(n[1..n.len() - 1].to_string()))
            }
            2 => {
                let n = self.r.pick(NUMS);
                self.feat("key.number");
                (vec![tk(n, K::Num)], format!("(num {})", n), None)
            }
            _ => {
                self.feat("key.computed");
                let x = self.expr(c, d, 1);
                let mut t = vec![p("[")];
                t.extend(x.t);
                t.push(p("]"));
                (t, format!("[{}]", x.s), None)
            }
        }
    }
    fn object(&mut self, c: &Ctx, d: u32) -> E {
        let n = self.r.n(4);
        let mut t = vec![p("{")];
        let mut sx = "(obj".to_string();
        let mut proto = false;
        for i in 0..n {
            match self.r.weighted(&[40, 15, 10, 6, 6, 5, 5, 4, 8]) {
                0 => {
                    self.feat("prop.init");
                    let (mut kt, mut ks, _) = self.key(c, d);
                    if !proto && self.r.pc(4) {
                        proto = true;
                        kt = vec![w("__proto__")];
                        ks = "(id __proto__)".into();
                    }
                    let v = self.expr(c, d, 1);
                    t.extend(kt);
                    t.push(p(":"));
                    t.extend(v.t);
                    sx.push_str(&format!("(init {}{})", ks, v.s));
                }
                1 => {
                    self.feat("prop.shorthand");
                    let n = self.reference(c);
                    t.push(w(&n));
                    sx.push_str(&format!("(init short (id {}))", n));
                }
                k @ 2..=7 => {
                    let (kt, ks, _) = self.key(c, d);
                    let (mt, ms) = self.method(c, d, k - 2, kt, false);
                    t.extend(mt);
                    let kind = match k {
                        3 => "get ",
                        4 => "set ",
                        _ => "init method ",
                    };
                    sx.push_str(&format!("({}{}{})", kind, ks, ms));
                }
                _ => {
                    self.feat("prop.spread");
                    let x = self.expr(c, d, 1);
                    t.push(p("..."));
                    t.extend(x.t);
                    sx.push_str(&format!("(spread {})", x.s));
                }
            }
            if i + 1 < n || self.r.pc(15) {
                t.push(p(","));
            }
        }
        t.push(p("}"));
        sx.push(')');
        e(t, sx, 19)
    }
    /// which: 0 plain, 1 get, 2 set, 3 async, 4 generator, 5 async generator
    fn method(&mut self, c: &Ctx, d: u32, which: usize, key: Vec<Tok>, derived_ctor: bool) -> (Vec<Tok>, String) {
        self.feat(["method.plain", "method.get", "method.set", "method.async", "method.generator", "method.async-generator"][which]);
        let mut t = vec![];
        let mut o = FnO { method: true, derived_ctor, ..Default::default() };
        match which {
            1 => {
                t.push(w("get"));
                o.nparams = Some(0);
            }
            2 => {
                t.push(w("set"));
                o.nparams = Some(1);
            }
            3 => o.is_async = true,
            4 => o.gen = true,
            5 => {
                o.is_async = true;
                o.gen = true;
            }
            _ => {}
        }
        let mut key = key;
        if o.is_async {
            t.push(w("async"));
            if o.gen {
                t.push(p("*").nn());
            } else {
                key = first_no_nl(key);
            }
        } else if o.gen {
            t.push(p("*"));
        }
        t.extend(key);
        let f = self.fun(c, d, o);
        let sx = fn_sx("(fn", o, "", &f);
        t.extend(f.params);
        t.extend(f.body);
        (t, sx)
    }

    // ---------------------------------------------------------------- functions
    fn fun(&mut self, c: &Ctx, d: u32, o: FnO) -> FnR {
        let simple = self.r.pc(50) || o.nparams == Some(0);
        let strict_dir = simple && !c.strict && self.r.pc(self.prof.strict_pc);
        let strict = c.strict || strict_dir;
        let base = Ctx {
            strict,
            module: c.module,
            yield_ok: false,
            await_ok: false,
            yield_res: strict,
            await_res: c.module,
            func: true,
            in_loop: false,
            in_switch: false,
            super_prop: o.method || (o.arrow && c.super_prop),
            super_call: o.derived_ctor || (o.arrow && c.super_call),
            new_target: !o.arrow || c.new_target,
            labels: vec![],
            top: false,
        };
        let pc = if o.arrow {
            Ctx {
                yield_res: strict || c.yield_res || c.yield_ok,
                await_res: c.await_res || c.await_ok || o.is_async || c.module,
                func: c.func,
                ..base.clone()
            }
        } else {
            Ctx { yield_res: strict || o.gen, await_res: c.module || o.is_async, ..base.clone() }
        };
        let mut params = vec![p("(")];
        let mut sp = "<".to_string();
        let n = match o.nparams {
            Some(n) => n,
            None => self.r.weighted(&[3, 4, 3, 1]),
        };
        let mut single = n == 1 && o.nparams.is_none();
        for i in 0..n {
            if simple {
                let b = self.binding(&pc, false);
                params.push(w(&b));
                sp.push_str(&format!("(id {})", b));
            } else if i + 1 == n && o.nparams.is_none() && self.r.pc(25) {
                self.feat("param.rest");
                single = false;
                params.push(p("..."));
                let (bt, bs) = if self.r.pc(70) {
                    let b = self.binding(&pc, false);
                    (vec![w(&b)], format!("(id {})", b))
                } else {
                    self.feat("param.rest-pattern");
                    self.bpat(&pc, d, false)
                };
                params.extend(bt);
                sp.push_str(&format!("(rest {})", bs));
                continue;
            } else {
                let (bt, bs) = self.bind_default(&pc, d, false);
                if bt.len() > 1 {
                    single = false;
                }
                params.extend(bt);
                sp.push_str(&bs);
            }
            if i + 1 < n || (o.nparams.is_none() && self.r.pc(6)) {
                params.push(p(","));
                single = single && i + 1 < n;
            }
        }
        params.push(p(")"));
        sp.push('>');
        let bc = Ctx {
            yield_ok: o.gen,
            await_ok: o.is_async,
            yield_res: strict || o.gen,
            await_res: c.module || o.is_async,
            ..base
        };
        if o.arrow && self.r.pc(60) {
            self.feat("arrow.expr-body");
            let bc = Ctx { func: c.func, strict: c.strict, yield_res: c.strict, ..bc };
            let x = self.expr(&bc, d, 1);
            // with a strict directive chosen there is no place to put it: harmless
            let x = if x.t[0].t == "{" && x.t[0].k == K::Punct { paren(x) } else { x };
            return FnR { params, sp, single, sb: if x.bare_in { format!("IN{}", x.s) } else { x.s }, body: x.t };
        }
        let save = self.declared.len();
        let (mut bt, bs) = self.body(&bc, d, strict_dir);
        self.declared.truncate(save);
        let mut body = vec![p("{")];
        body.append(&mut bt);
        body.push(p("}"));
        FnR { params, body, sp, sb: format!("[{}]", bs), single }
    }
    /// directive prologue and statements
    fn body(&mut self, c: &Ctx, d: u32, strict_dir: bool) -> (Vec<Tok>, String) {
        let mut t = vec![];
        let mut sx = String::new();
        let mut ds: Vec<&str> = vec![];
        if self.r.pc(8) {
            ds.push(["'x y'", "\"use asm\"", "'use  strict'", "'\\u0075se strict'", "'it\\'s'"][self.r.n(5)]);
        }
        if strict_dir {
            ds.push(["'use strict'", "\"use strict\""][self.r.n(2)]);
            if self.r.pc(10) {
                ds.push("'after'");
            }
        }
        for x in ds {
            self.feat("directive");
            t.push(tk(x, K::Str));
            t.push(p(";").asi(1));
            sx.push_str(&format!("(dir (str {}))", x));
        }
        let n = if self.fuel <= 0 { self.r.n(2) } else { self.r.n(4) };
        for i in 0..n {
            let mut st = self.item(c, d);
            if i == 0 {
                self.undirect(&mut st);
            }
            t.extend(st.t);
            sx.push_str(&st.s);
        }
        (t, sx)
    }
    /// keep a string statement in a prologue position from being a directive
    pub fn undirect(&mut self, st: &mut S) {
        if st.t.len() == 2 && st.t[0].k == K::Str && st.t[1].t == ";" {
            self.feat("prologue.string-statement");
            st.t.insert(1, p(")"));
            st.t.insert(0, p("("));
        }
    }
    fn fn_expr(&mut self, c: &Ctx, d: u32, is_async: bool, gen: bool) -> E {
        let o = FnO { is_async, gen, ..Default::default() };
        let mut t = vec![];
        if is_async {
            t.push(w("async"));
            t.push(w("function").nn());
        } else {
            t.push(w("function"));
        }
        if gen {
            t.push(p("*"));
        }
        let f = self.fun(c, d, o);
        // the name must also be legal inside (strict bodies, generators, async functions)
        let name = if self.r.pc(50) {
            let nc = Ctx { strict: true, yield_res: true, await_res: true, ..c.clone() };
            self.binding(&nc, false)
        } else {
            String::new()
        };
        if !name.is_empty() {
            t.push(w(&name));
        }
        let sx = fn_sx("(fn", o, &name, &f);
        t.extend(f.params);
        t.extend(f.body);
        e(t, sx, 19)
    }
    fn arrow(&mut self, c: &Ctx, d: u32, is_async: bool) -> E {
        let o = FnO { is_async, arrow: true, ..Default::default() };
        let f = self.fun(c, d, o);
        let mut t = vec![];
        if is_async {
            t.push(w("async"));
        }
        let pt = if f.single && f.params.len() == 3 && self.r.pc(60) {
            self.feat("arrow.bare-param");
            vec![f.params[1].clone()]
        } else {
            f.params.clone()
        };
        t.extend(if is_async { first_no_nl(pt) } else { pt });
        t.push(p("=>").nn());
        let bare_in = f.sb.starts_with("IN");
        let sb = f.sb.trim_start_matches("IN").to_string();
        t.extend(f.body);
        let sx = format!("(arrow{}{}{})", if is_async { " async" } else { "" }, f.sp, sb);
        E { t, s: sx, prec: 1, bare_in, tgt: 0 }
    }
    fn fn_decl(&mut self, c: &Ctx, d: u32, is_async: bool, gen: bool, name: bool) -> (Vec<Tok>, FnO, FnR, String) {
        let o = FnO { is_async, gen, ..Default::default() };
        let mut t = vec![];
        if is_async {
            t.push(w("async"));
            t.push(w("function").nn());
        } else {
            t.push(w("function"));
        }
        if gen {
            t.push(p("*"));
        }
        let f = self.fun(c, d, o);
        let n = if name {
            let nc = Ctx { strict: true, yield_res: true, await_res: true, ..c.clone() };
            let n = self.binding(&nc, false);
            t.push(w(&n));
            n
        } else {
            String::new()
        };
        t.extend(f.params.clone());
        t.extend(f.body.clone());
        (t, o, f, n)
    }
    fn class(&mut self, c: &Ctx, d: u32, tag: &str, named: bool) -> (Vec<Tok>, String) {
        let c = &Ctx { strict: true, yield_res: true, ..c.clone() };
        let mut t = vec![w("class")];
        let mut sx = tag.to_string();
        if named {
            let n = self.binding(&Ctx { await_res: true, ..c.clone() }, true);
            t.push(w(&n));
            sx.push_str(&n);
            if c.top && tag == "(classdecl " {
                self.declared.push(n);
            }
        }
        let ext = self.r.pc(40);
        if ext {
            self.feat("class.extends");
            let x = self.expr(c, d, 17);
            t.push(w("extends"));
            t.extend(x.t);
            sx.push_str(&format!(" extends {}", x.s));
        }
        t.push(p("{"));
        let n = self.r.n(4);
        let mut ctor = false;
        for _ in 0..n {
            if self.r.pc(8) {
                self.feat("class.semicolon");
                t.push(p(";"));
            }
            if !ctor && self.r.pc(25) {
                ctor = true;
                self.feat("class.constructor");
                let (kt, ks) = match self.r.n(6) {
                    0 => (tk("'constructor'", K::Str), "(str 'constructor')"),
                    1 => (tk("\"constructor\"", K::Str), "(str \"constructor\")"),
                    _ => (w("constructor"), "(id constructor)"),
                };
                let (mt, ms) = self.method(c, d, 0, vec![kt], ext);
                t.extend(mt);
                sx.push_str(&format!("(ctor {}{})", ks, ms));
                continue;
            }
            let st = self.r.pc(25);
            if st {
                self.feat("class.static");
                t.push(w("static"));
            }
            let (kt, ks) = loop {
                let (kt, ks, n) = self.key(c, d);
                match n.as_deref() {
                    Some("constructor") if !st => continue,
                    Some("prototype") if st => continue,
                    _ => break (kt, ks),
                }
            };
            let which = self.r.weighted(&[10, 4, 4, 4, 4, 2]);
            let (mt, ms) = self.method(c, d, which, kt, false);
            t.extend(mt);
            let kind = match which {
                1 => "get",
                2 => "set",
                _ => "method",
            };
            sx.push_str(&format!("({} {}{})", kind, ks, ms));
        }
        if self.r.pc(5) {
            t.push(p(";"));
        }
        t.push(p("}"));
        sx.push(')');
        (t, sx)
    }

    // ---------------------------------------------------------------- patterns
    fn bind_default(&mut self, c: &Ctx, d: u32, lexical: bool) -> (Vec<Tok>, String) {
        let (mut t, sx) = if self.r.pc(50) {
            let b = self.binding(c, lexical);
            (vec![w(&b)], format!("(id {})", b))
        } else {
            self.bpat(c, d, lexical)
        };
        if self.r.pc(35) {
            self.feat("pattern.default");
            let x = self.expr(c, d.saturating_sub(1), 1);
            t.push(p("="));
            t.extend(x.t);
            (t, format!("(def {}{})", sx, x.s))
        } else {
            (t, sx)
        }
    }
    pub fn bpat(&mut self, c: &Ctx, d: u32, lexical: bool) -> (Vec<Tok>, String) {
        self.fuel -= 1;
        if d == 0 || self.fuel <= -20 {
            let b = self.binding(c, lexical);
            return (vec![w(&b)], format!("(id {})", b));
        }
        let d = d - 1;
        if self.r.pc(50) {
            self.feat("pattern.object");
            let n = self.r.n(4);
            let mut t = vec![p("{")];
            let mut sx = "(objpat".to_string();
            for i in 0..n {
                if i + 1 == n && self.r.pc(18) {
                    self.feat("pattern.object-rest");
                    let b = self.binding(c, lexical);
                    t.push(p("..."));
                    t.push(w(&b));
                    sx.push_str(&format!("(rest (id {}))", b));
                    continue;
                }
                if self.r.pc(45) {
                    let b = self.binding(c, lexical);
                    t.push(w(&b));
                    if self.r.pc(35) {
                        self.feat("pattern.shorthand-default");
                        let x = self.expr(c, d, 1);
                        t.push(p("="));
                        t.extend(x.t);
                        sx.push_str(&format!("(p short (id {})(def (id {}){}))", b, b, x.s));
                    } else {
                        sx.push_str(&format!("(p short (id {})(id {}))", b, b));
                    }
                } else {
                    let (kt, ks, _) = self.key(c, d);
                    let (vt, vs) = self.bind_default(c, d, lexical);
                    t.extend(kt);
                    t.push(p(":"));
                    t.extend(vt);
                    sx.push_str(&format!("(p {}{})", ks, vs));
                }
                if i + 1 < n || self.r.pc(12) {
                    t.push(p(","));
                }
            }
            t.push(p("}"));
            sx.push(')');
            (t, sx)
        } else {
            self.feat("pattern.array");
            let n = self.r.n(4);
            let mut t = vec![p("[")];
            let mut sx = "(arrpat".to_string();
            for i in 0..n {
                sx.push(' ');
                if self.r.pc(12) {
                    self.feat("pattern.hole");
                    sx.push('_');
                    t.push(p(","));
                    continue;
                }
                if i + 1 == n && self.r.pc(20) {
                    self.feat("pattern.array-rest");
                    let (bt, bs) = if self.r.pc(70) {
                        let b = self.binding(c, lexical);
                        (vec![w(&b)], format!("(id {})", b))
                    } else {
                        self.bpat(c, d, lexical)
                    };
                    t.push(p("..."));
                    t.extend(bt);
                    sx.push_str(&format!("(rest {})", bs));
                    continue;
                }
                let (bt, bs) = self.bind_default(c, d, lexical);
                t.extend(bt);
                sx.push_str(&bs);
                if i + 1 < n || self.r.pc(12) {
                    t.push(p(","));
                }
            }
            t.push(p("]"));
            sx.push(')');
            (t, sx)
        }
    }
    /// element of an assignment pattern: a target, maybe with a default
    fn aelem(&mut self, c: &Ctx, d: u32) -> (Vec<Tok>, String) {
        let (mut t, sx) = if d > 0 && self.r.pc(25) {
            self.apat(c, d - 1)
        } else {
            let x = self.target(c, d);
            (x.t, x.s)
        };
        if self.r.pc(35) {
            self.feat("target.default");
            let x = self.expr(c, d.saturating_sub(1), 1);
            t.push(p("="));
            t.extend(x.t);
            (t, format!("(def {}{})", sx, x.s))
        } else {
            (t, sx)
        }
    }
    /// an assignment pattern (object or array)
    pub fn apat(&mut self, c: &Ctx, d: u32) -> (Vec<Tok>, String) {
        self.fuel -= 1;
        let d = d.saturating_sub(1);
        let n = if self.fuel < -20 { 0 } else { self.r.n(4) };
        if self.r.pc(50) {
            self.feat("target.object");
            let mut t = vec![p("{")];
            let mut sx = "(objpat".to_string();
            for i in 0..n {
                if i + 1 == n && self.r.pc(18) {
                    self.feat("target.object-rest");
                    let x = self.target(c, d);
                    t.push(p("..."));
                    t.extend(x.t);
                    sx.push_str(&format!("(rest {})", x.s));
                    continue;
                }
                if self.r.pc(45) {
                    let b = self.target_name(c);
                    t.push(w(&b));
                    if self.r.pc(35) {
                        self.feat("target.shorthand-default");
                        let x = self.expr(c, d, 1);
                        t.push(p("="));
                        t.extend(x.t);
                        sx.push_str(&format!("(p short (id {})(def (id {}){}))", b, b, x.s));
                    } else {
                        sx.push_str(&format!("(p short (id {})(id {}))", b, b));
                    }
                } else {
                    let (kt, ks, _) = self.key(c, d);
                    let (vt, vs) = self.aelem(c, d);
                    t.extend(kt);
                    t.push(p(":"));
                    t.extend(vt);
                    sx.push_str(&format!("(p {}{})", ks, vs));
                }
                if i + 1 < n || self.r.pc(12) {
                    t.push(p(","));
                }
            }
            t.push(p("}"));
            sx.push(')');
            (t, sx)
        } else {
            self.feat("target.array");
            let mut t = vec![p("[")];
            let mut sx = "(arrpat".to_string();
            for i in 0..n {
                sx.push(' ');
                if self.r.pc(12) {
                    sx.push('_');
                    t.push(p(","));
                    continue;
                }
                if i + 1 == n && self.r.pc(20) {
                    self.feat("target.array-rest");
                    let (bt, bs) = if d > 0 && self.r.pc(25) {
                        self.apat(c, d)
                    } else {
                        let x = self.target(c, d);
                        (x.t, x.s)
                    };
                    t.push(p("..."));
                    t.extend(bt);
                    sx.push_str(&format!("(rest {})", bs));
                    continue;
                }
                let (bt, bs) = self.aelem(c, d);
                t.extend(bt);
                sx.push_str(&bs);
                if i + 1 < n || self.r.pc(12) {
                    t.push(p(","));
                }
            }
            t.push(p("]"));
            sx.push(')');
            (t, sx)
        }
    }

    // ---------------------------------------------------------------- statements
    fn semi(&self) -> Tok {
        p(";").asi(1)
    }
    /// statement-list item
    pub fn item(&mut self, c: &Ctx, d: u32) -> S {
        let k = self.pick_stmt(c, d, true);
        self.stmt_node(c, d, k, true)
    }
    /// statement in a single-statement position
    pub fn sub(&mut self, c: &Ctx, d: u32) -> S {
        let c = &Ctx { top: false, ..c.clone() };
        if d > 0 && self.r.pc(45) {
            return self.stmt_node(c, d, T::Block, false);
        }
        let k = self.pick_stmt(c, d, false);
        self.stmt_node(c, d, k, false)
    }
    fn pick_stmt(&mut self, c: &Ctx, d: u32, list: bool) -> T {
        if d == 0 || self.fuel <= 0 {
            return match self.r.n(8) {
                0 => T::Empty,
                1 if list => T::Var,
                2 if c.func => T::Return,
                3 if c.in_loop => T::Break,
                _ => T::Expr,
            };
        }
        let mut ws = self.prof.t;
        let mut off = |k: T| ws[k as usize] = 0;
        if !list {
            for k in [T::Let, T::Const, T::Fn, T::AFn, T::GFn, T::AGFn, T::Class].iter() {
                off(*k);
            }
        }
        if !c.func {
            off(T::Return);
        }
        if !c.await_ok {
            off(T::ForAwait);
        }
        if c.strict {
            off(T::With);
        }
        if !c.in_loop && !c.in_switch && c.labels.is_empty() {
            off(T::Break);
        }
        if !c.in_loop {
            off(T::Continue);
        }
        SK[self.r.weighted(&ws)].2
    }
    pub fn stmt_node(&mut self, c: &Ctx, d: u32, k: T, list: bool) -> S {
        self.enter(64 + k as u8);
        let name = SK[k as usize].0;
        *self.feats.entry(format!("stmt.{}", name)).or_insert(0) += 1;
        let x = self.stmt_(c, d.saturating_sub(1), k, list);
        self.leave();
        x
    }
    pub fn expr_stmt(&mut self, x: E) -> S {
        let x = if self.starts_badly(&x) { paren(x) } else { x };
        let mut t = x.t;
        t.push(self.semi());
        s(t, format!("(expr {})", x.s))
    }
    fn starts_badly(&mut self, x: &E) -> bool {
        let f = &x.t[0];
        if f.k == K::Punct {
            return f.t == "{";
        }
        if f.k != K::Word {
            return false;
        }
        let second = x.t.get(1).map(|t| t.t.as_str()).unwrap_or("");
        match f.t.as_str() {
            "function" | "class" => true,
            "async" => second == "function",
            "let" => !(matches!(second, "" | "=" | "." | "(" | "," | "+" | "?") && self.r.pc(50)),
            _ => false,
        }
    }
    fn vars(&mut self, c: &Ctx, d: u32, kind: &str, no_in: bool, one_no_init: bool) -> (Vec<Tok>, String) {
        let n = if one_no_init { 1 } else { 1 + self.r.weighted(&[6, 2, 1]) };
        let lexical = kind != "var";
        let mut t = vec![w(kind)];
        let mut sx = format!("({}", kind);
        for i in 0..n {
            let (bt, bs) = if self.r.pc(65) {
                let b = self.binding(c, lexical);
                if c.top {
                    self.declared.push(b.clone());
                }
                (vec![w(&b)], format!("(id {})", b))
            } else {
                self.bpat(c, d.min(3), lexical)
            };
            let need = kind == "const" || bs.starts_with("(objpat") || bs.starts_with("(arrpat");
            if i > 0 {
                t.push(p(","));
            }
            t.extend(bt);
            sx.push_str(&format!(" ({}", bs));
            if !one_no_init && (need || self.r.pc(55)) {
                let mut x = self.expr(c, d, 1);
                if no_in && x.bare_in {
                    x = paren(x);
                }
                t.push(p("="));
                t.extend(x.t);
                sx.push_str(&format!(" = {}", x.s));
            }
            sx.push(')');
        }
        sx.push(')');
        (t, sx)
    }
    fn cond(&mut self, c: &Ctx, d: u32) -> (Vec<Tok>, String) {
        let x = self.expr(c, d, 0);
        let mut t = vec![p("(")];
        t.extend(x.t);
        t.push(p(")"));
        (t, x.s)
    }
    fn block(&mut self, c: &Ctx, d: u32) -> (Vec<Tok>, String) {
        let c = &Ctx { top: false, ..c.clone() };
        let mut t = vec![p("{")];
        let mut sx = "[".to_string();
        let n = if self.fuel <= 0 { self.r.n(2) } else { self.r.n(4) };
        for _ in 0..n {
            let x = self.item(c, d);
            t.extend(x.t);
            sx.push_str(&x.s);
        }
        t.push(p("}"));
        sx.push(']');
        (t, sx)
    }
    fn loop_ctx(&self, c: &Ctx) -> Ctx {
        let mut c = c.clone();
        c.in_loop = true;
        c.top = false;
        c
    }
    fn for_left(&mut self, c: &Ctx, d: u32) -> (Vec<Tok>, String) {
        match self.r.n(5) {
            0 => self.vars(c, d, "var", true, true),
            1 => self.vars(c, d, "let", true, true),
            2 => self.vars(c, d, "const", true, true),
            3 => {
                self.feat("for.pattern-target");
                self.apat(c, d.min(2))
            }
            _ => {
                self.feat("for.expr-target");
                let mut x = self.target(c, d);
                if x.bare_in || matches!(x.t[0].t.as_str(), "let" | "async") && x.t[0].k == K::Word {
                    x = paren(x);
                }
                (x.t, x.s)
            }
        }
    }
    fn stmt_(&mut self, c: &Ctx, d: u32, k: T, list: bool) -> S {
        match k {
            T::Expr => {
                let x = self.expr(c, d, 0);
                self.expr_stmt(x)
            }
            T::Var | T::Let | T::Const => {
                let kind = match k {
                    T::Var => "var",
                    T::Let => "let",
                    _ => "const",
                };
                let (mut t, sx) = self.vars(c, d, kind, false, false);
                t.push(self.semi());
                s(t, sx)
            }
            T::Block => {
                let (t, sx) = self.block(c, d);
                s(t, format!("(block {})", sx))
            }
            T::Empty => s(vec![p(";")], "(empty)".into()),
            T::Debugger => s(vec![w("debugger"), self.semi()], "(debugger)".into()),
            T::If => {
                let mut t = vec![w("if")];
                let (ct, cs) = self.cond(c, d);
                t.extend(ct);
                let mut body = if !c.strict && self.r.pc(4) { self.fn_sub(c, d) } else { self.sub(c, d) };
                let mut sx = format!("(if {}", cs);
                let has_else = self.r.pc(45);
                if has_else && body.open_if {
                    self.feat("if.dangling-else-avoided");
                    let mut bt = vec![p("{")];
                    bt.extend(body.t);
                    bt.push(p("}"));
                    body = s(bt, format!("(block [{}])", body.s));
                }
                t.extend(body.t);
                sx.push_str(&body.s);
                let mut open = true;
                if has_else {
                    t.push(w("else"));
                    let alt = if !c.strict && self.r.pc(4) { self.fn_sub(c, d) } else { self.sub(c, d) };
                    t.extend(alt.t);
                    sx.push_str(" else ");
                    sx.push_str(&alt.s);
                    open = alt.open_if;
                }
                sx.push(')');
                S { t, s: sx, open_if: open }
            }
            T::For => {
                let lc = self.loop_ctx(c);
                let hc = Ctx { top: false, ..c.clone() };
                let mut t = vec![w("for"), p("(")];
                let mut sx = "(for ".to_string();
                match self.r.n(6) {
                    0 => sx.push('_'),
                    1 => {
                        self.feat("for.expr-init");
                        let mut x = self.expr(&hc, d, 0);
                        let f = &x.t[0];
                        if x.bare_in || (f.k == K::Word && (f.t == "let" || f.t == "async")) {
                            x = paren(x);
                        }
                        t.extend(x.t);
                        sx.push_str(&x.s);
                    }
                    k => {
                        let kind = ["var", "let", "const", "var"][k - 2];
                        let (vt, vs) = self.vars(&hc, d, kind, true, false);
                        t.extend(vt);
                        sx.push_str(&vs);
                    }
                }
                t.push(p(";"));
                sx.push(';');
                for i in 0..2 {
                    if self.r.pc(70) {
                        let x = self.expr(&hc, d, 0);
                        t.extend(x.t);
                        sx.push_str(&x.s);
                    } else {
                        sx.push('_');
                    }
                    if i == 0 {
                        t.push(p(";"));
                        sx.push(';');
                    }
                }
                t.push(p(")"));
                let b = self.sub(&lc, d);
                t.extend(b.t);
                sx.push_str(&b.s);
                sx.push(')');
                S { t, s: sx, open_if: b.open_if }
            }
            T::ForIn | T::ForOf | T::ForAwait => {
                let lc = self.loop_ctx(c);
                let hc = Ctx { top: false, ..c.clone() };
                let (lt, ls) = self.for_left(&hc, d);
                let mut t = vec![w("for")];
                if k == T::ForAwait {
                    t.push(w("await"));
                }
                t.push(p("("));
                t.extend(lt);
                t.push(w(if k == T::ForIn { "in" } else { "of" }));
                let x = self.expr(&hc, d, if k == T::ForIn { 0 } else { 1 });
                t.extend(x.t);
                t.push(p(")"));
                let b = self.sub(&lc, d);
                t.extend(b.t);
                let tag = match k {
                    T::ForIn => "(forin ",
                    T::ForOf => "(forof ",
                    _ => "(forawait ",
                };
                S { t, s: format!("{}{}{}{})", tag, ls, x.s, b.s), open_if: b.open_if }
            }
            T::While => {
                let lc = self.loop_ctx(c);
                let (ct, cs) = self.cond(c, d);
                let b = self.sub(&lc, d);
                let mut t = vec![w("while")];
                t.extend(ct);
                t.extend(b.t);
                S { t, s: format!("(while {}{})", cs, b.s), open_if: b.open_if }
            }
            T::Do => {
                let lc = self.loop_ctx(c);
                let b = self.sub(&lc, d);
                let (ct, cs) = self.cond(c, d);
                let mut t = vec![w("do")];
                t.extend(b.t);
                t.push(w("while"));
                t.extend(ct);
                t.push(p(";").asi(2));
                s(t, format!("(do {}{})", b.s, cs))
            }
            T::Switch => {
                let mut sc = c.clone();
                sc.in_switch = true;
                sc.top = false;
                let (ct, cs) = self.cond(c, d);
                let mut t = vec![w("switch")];
                t.extend(ct);
                t.push(p("{"));
                let mut sx = format!("(switch {}", cs);
                let n = self.r.n(4);
                let def = if self.r.pc(60) && n > 0 { self.r.n(n) } else { 99 };
                for i in 0..n {
                    if i == def {
                        self.feat("switch.default");
                        t.push(w("default"));
                        sx.push_str("(case _[");
                    } else {
                        let x = self.expr(c, d, 0);
                        t.push(w("case"));
                        t.extend(x.t);
                        sx.push_str(&format!("(case {}[", x.s));
                    }
                    t.push(p(":"));
                    for _ in 0..self.r.n(3) {
                        let b = self.item(&sc, d);
                        t.extend(b.t);
                        sx.push_str(&b.s);
                    }
                    sx.push_str("])");
                }
                t.push(p("}"));
                sx.push(')');
                s(t, sx)
            }
            T::Try => {
                let mut t = vec![w("try")];
                let (bt, bs) = self.block(c, d);
                t.extend(bt);
                let mut sx = format!("(try {}", bs);
                let which = self.r.n(3);
                if which != 1 {
                    t.push(w("catch"));
                    sx.push_str("(catch ");
                    if self.r.pc(75) {
                        t.push(p("("));
                        let (pt, ps) = if self.r.pc(70) {
                            let b = self.binding(c, true);
                            (vec![w(&b)], format!("(id {})", b))
                        } else {
                            self.feat("catch.pattern");
                            self.bpat(c, d.min(2), true)
                        };
                        t.extend(pt);
                        sx.push_str(&ps);
                        t.push(p(")"));
                    } else {
                        self.feat("catch.no-binding");
                    }
                    let (bt, bs) = self.block(c, d);
                    t.extend(bt);
                    sx.push_str(&bs);
                    sx.push(')');
                }
                if which != 0 {
                    self.feat("try.finally");
                    t.push(w("finally"));
                    let (bt, bs) = self.block(c, d);
                    t.extend(bt);
                    sx.push_str(&format!("(finally {})", bs));
                }
                sx.push(')');
                s(t, sx)
            }
            T::Throw => {
                let x = self.expr(c, d, 0);
                let mut t = vec![w("throw")];
                t.extend(first_no_nl(x.t));
                t.push(self.semi());
                s(t, format!("(throw {})", x.s))
            }
            T::Return => {
                if self.r.pc(25) {
                    return s(vec![w("return"), self.semi()], "(return _)".into());
                }
                let x = self.expr(c, d, 0);
                let mut t = vec![w("return")];
                t.extend(first_no_nl(x.t));
                t.push(self.semi());
                s(t, format!("(return {})", x.s))
            }
            T::Break => {
                let can_plain = c.in_loop || c.in_switch;
                if !c.labels.is_empty() && (!can_plain || self.r.pc(50)) {
                    self.feat("break.label");
                    let l = c.labels[self.r.n(c.labels.len())].0.clone();
                    s(vec![w("break"), w(&l).nn(), self.semi()], format!("(break {})", l))
                } else if can_plain {
                    s(vec![w("break"), self.semi()], "(break )".into())
                } else {
                    s(vec![p(";")], "(empty)".into())
                }
            }
            T::Continue => {
                let ls: Vec<String> = c.labels.iter().filter(|l| l.1).map(|l| l.0.clone()).collect();
                if !ls.is_empty() && self.r.pc(50) {
                    self.feat("continue.label");
                    let l = ls[self.r.n(ls.len())].clone();
                    s(vec![w("continue"), w(&l).nn(), self.semi()], format!("(continue {})", l))
                } else {
                    s(vec![w("continue"), self.semi()], "(continue )".into())
                }
            }
            T::Label => {
                let name = if self.r.pc(self.prof.names_pc) {
                    let n = self.r.pick(CONTEXTUAL).to_string();
                    if Self::word_allowed(&n, c) && n != "let" && !c.labels.iter().any(|l| l.0 == n) {
                        self.feat("label.contextual");
                        n
                    } else {
                        self.ctr += 1;
                        format!("l{}", self.ctr)
                    }
                } else {
                    self.ctr += 1;
                    format!("l{}", self.ctr)
                };
                let mut lc = c.clone();
                lc.top = false;
                let loopy = self.r.pc(55) && d > 0;
                lc.labels.push((name.clone(), loopy));
                let b = if loopy {
                    let k = [T::For, T::ForIn, T::ForOf, T::While, T::Do][self.r.n(5)];
                    self.stmt_node(&lc, d, k, false)
                } else if list && !c.strict && self.r.pc(6) {
                    self.fn_sub(&lc, d)
                } else if list && d > 0 && self.r.pc(15) {
                    self.feat("label.label");
                    self.stmt_node(&lc, d, T::Label, list)
                } else {
                    self.sub(&lc, d)
                };
                let mut t = vec![w(&name), p(":")];
                t.extend(b.t);
                S { t, s: format!("(label {}{})", name, b.s), open_if: b.open_if }
            }
            T::Fn => {
                let (t, o, f, n) = self.fn_decl(c, d, false, false, true);
                if c.top {
                    self.declared.push(n.clone());
                }
                s(t, fn_sx("(fndecl", o, &n, &f))
            }
            T::GFn => {
                let (t, o, f, n) = self.fn_decl(c, d, false, true, true);
                if c.top {
                    self.declared.push(n.clone());
                }
                s(t, fn_sx("(fndecl", o, &n, &f))
            }
            T::AFn | T::AGFn => {
                let (t, o, f, n) = self.fn_decl(c, d, true, k == T::AGFn, true);
                if c.top {
                    self.declared.push(n.clone());
                }
                s(t, format!("(expr {})", fn_sx("(fn", o, &n, &f)))
            }
            T::Class => {
                let _ = list;
                let (t, sx) = self.class(c, d, "(classdecl ", true);
                s(t, sx)
            }
            T::With => {
                let (ct, cs) = self.cond(c, d);
                let b = self.sub(c, d);
                let mut t = vec![w("with")];
                t.extend(ct);
                t.extend(b.t);
                S { t, s: format!("(with {}{})", cs, b.s), open_if: b.open_if }
            }
        }
    }
    /// sloppy-mode function in a single-statement position
    fn fn_sub(&mut self, c: &Ctx, d: u32) -> S {
        self.feat("function.as-substatement");
        let (t, o, f, n) = self.fn_decl(c, d, false, false, true);
        s(t, format!("(expr {})", fn_sx("(fn", o, &n, &f)))
    }

    // ---------------------------------------------------------------- modules
    fn export_name(&mut self) -> String {
        loop {
            self.ctr += 1;
            let n = if self.r.pc(20) {
                self.r.pick(RESERVED).to_string()
            } else {
                format!("e{}", self.ctr)
            };
            if n != "default" && self.exported.insert(n.clone()) {
                return n;
            }
        }
    }
    fn source(&mut self) -> Tok {
        tk(["'m'", "\"./a.js\"", "'日本'", "''", "\"it's\""][self.r.n(5)], K::Str)
    }
    pub fn import(&mut self, c: &Ctx) -> S {
        let mut t = vec![w("import")];
        let mut sx = "(import ".to_string();
        let which = self.r.n(6);
        self.feat(["import.bare", "import.default", "import.namespace", "import.named", "import.default+named", "import.default+namespace"][which]);
        if matches!(which, 1 | 4 | 5) {
            let b = self.binding(c, true);
            t.push(w(&b));
            sx.push_str(&format!("(d {})", b));
            self.declared.push(b);
            if which != 1 {
                t.push(p(","));
            }
        }
        if matches!(which, 2 | 5) {
            let b = self.binding(c, true);
            t.push(p("*"));
            t.push(w("as"));
            t.push(w(&b));
            sx.push_str(&format!("(* {})", b));
            self.declared.push(b);
        }
        if matches!(which, 3 | 4) {
            t.push(p("{"));
            let n = self.r.n(4);
            for i in 0..n {
                if self.r.pc(50) {
                    let b = self.binding(c, true);
                    t.push(w(&b));
                    sx.push_str(&format!("(n {})", b));
                    self.declared.push(b);
                } else {
                    self.feat("import.as");
                    let b = self.binding(c, true);
                    let i = if self.r.pc(15) { b.clone() } else { self.prop_name() };
                    t.push(w(&i));
                    t.push(w("as"));
                    t.push(w(&b));
                    sx.push_str(&format!("(n {} {})", i, b));
                    self.declared.push(b);
                }
                if i + 1 < n || self.r.pc(12) {
                    t.push(p(","));
                }
            }
            t.push(p("}"));
        }
        if which != 0 {
            t.push(w("from"));
        }
        let src = self.source();
        sx.push_str(&format!("(str {}))", src.t));
        t.push(src);
        t.push(self.semi());
        s(t, sx)
    }
    pub fn export(&mut self, c: &Ctx, d: u32) -> S {
        let mut t = vec![w("export")];
        let which = self.r.n(if self.default_done { 9 } else { 13 });
        self.feat(
            [
                "export.all", "export.names-from", "export.names", "export.var", "export.let", "export.const", "export.function",
                "export.async-function", "export.class", "export.default-expr", "export.default-function", "export.default-class",
                "export.default-async",
            ][which],
        );
        match which {
            0 => {
                let src = self.source();
                t.push(p("*"));
                t.push(w("from"));
                let sx = format!("(export-all (str {}))", src.t);
                t.push(src);
                t.push(self.semi());
                s(t, sx)
            }
            1 | 2 => {
                let from = which == 1;
                let n = self.r.n(4);
                let mut sx = "(export-names ".to_string();
                t.push(p("{"));
                for i in 0..n {
                    let local = if from {
                        if self.r.pc(12) { "default".to_string() } else { self.prop_name() }
                    } else if self.declared.is_empty() {
                        continue;
                    } else {
                        let k = self.r.n(self.declared.len());
                        self.declared[k].clone()
                    };
                    t.push(w(&local));
                    let plain = self.r.pc(40) && !(local == "default" && self.default_done) && self.exported.insert(local.clone());
                    if plain {
                        if local == "default" {
                            self.default_done = true;
                        }
                        sx.push_str(&format!("({})", local));
                    } else {
                        let out = if !self.default_done && self.r.pc(10) {
                            self.default_done = true;
                            self.exported.insert("default".into());
                            "default".to_string()
                        } else if local != "default" && self.r.pc(20) && self.exported.insert(local.clone()) {
                            // renamed to itself
                            local.clone()
                        } else {
                            self.export_name()
                        };
                        t.push(w("as"));
                        t.push(w(&out));
                        sx.push_str(&format!("({} {})", local, out));
                    }
                    if i + 1 < n || self.r.pc(12) {
                        t.push(p(","));
                    }
                }
                t.push(p("}"));
                if from {
                    let src = self.source();
                    t.push(w("from"));
                    sx.push_str(&format!("(str {})", src.t));
                    t.push(src);
                }
                sx.push(')');
                t.push(self.semi());
                s(t, sx)
            }
            3..=5 => {
                let kind = ["var", "let", "const"][which - 3];
                // destructured names would need export bookkeeping: they are unique anyway
                let (vt, vs) = self.vars(c, d, kind, false, false);
                t.extend(vt);
                t.push(self.semi());
                self.taint();
                s(t, format!("(export {})", vs))
            }
            6 | 7 => {
                let gen = self.r.pc(25);
                let (ft, o, f, n) = self.fn_decl(c, d, which == 7, gen, true);
                t.extend(ft);
                self.exported.insert(n.clone());
                s(t, format!("(export {})", fn_sx("(fndecl", o, &n, &f)))
            }
            8 => {
                let (ct, cs) = self.class(c, d, "(classdecl ", true);
                self.taint();
                t.extend(ct);
                s(t, format!("(export {})", cs))
            }
            9 => {
                self.default_done = true;
                self.exported.insert("default".into());
                let mut x = self.expr(c, d, 1);
                let second = x.t.get(1).map(|t| t.t.as_str()).unwrap_or("");
                if x.t[0].k == K::Word && (matches!(x.t[0].t.as_str(), "function" | "class") || (x.t[0].t == "async" && second == "function")) {
                    x = paren(x);
                }
                t.push(w("default"));
                t.extend(x.t);
                t.push(self.semi());
                s(t, format!("(export-default {})", x.s))
            }
            10 | 12 => {
                self.default_done = true;
                self.exported.insert("default".into());
                t.push(w("default"));
                let (named, gen) = (self.r.pc(60), self.r.pc(25));
                let (ft, o, f, n) = self.fn_decl(c, d, which == 12, gen, named);
                t.extend(ft);
                s(t, format!("(export-default {})", fn_sx("(fndecl", o, &n, &f)))
            }
            _ => {
                self.default_done = true;
                self.exported.insert("default".into());
                t.push(w("default"));
                let named = self.r.pc(60);
                let (ct, cs) = self.class(c, d, "(classdecl ", named);
                t.extend(ct);
                s(t, format!("(export-default {})", cs))
            }
        }
    }
    /// names declared so far are exported (or may be): do not export them again by name
    fn taint(&mut self) {
        for n in self.declared.clone() {
            self.exported.insert(n);
        }
    }

    // ---------------------------------------------------------------- programs
    pub fn program(&mut self) -> Prog {
        let module = self.r.pc(self.prof.module_pc);
        self.program_as(module)
    }
    pub fn program_as(&mut self, module: bool) -> Prog {
        let strict_dir = self.r.pc(self.prof.strict_pc);
        let mut c = if module { Ctx::module() } else { Ctx::script() };
        let mut pr = Prog { toks: vec![], bounds: vec![], parts: vec![], module, strict: module || strict_dir };
        let mut ds: Vec<&str> = vec![];
        if self.r.pc(8) {
            ds.push(["'x y'", "\"use asm\"", "'use  strict'", "'\\u0075se strict'", "'it\\'s'"][self.r.n(5)]);
        }
        if strict_dir {
            c.strict = true;
            c.yield_res = true;
            ds.push(["'use strict'", "\"use strict\""][self.r.n(2)]);
            if self.r.pc(15) {
                ds.push("'after'");
            }
        }
        for x in ds {
            self.feat("directive");
            pr.bounds.push(pr.toks.len());
            pr.toks.push(tk(x, K::Str));
            pr.toks.push(p(";").asi(1));
            pr.parts.push(format!("(dir (str {}))", x));
        }
        let n = 1 + self.r.n(self.prof.items);
        for i in 0..n {
            self.fuel = self.fuel.max(self.prof.fuel / 3);
            let d = 1 + self.r.n(self.prof.depth as usize) as u32;
            let mut st = if module && self.r.pc(self.prof.impexp_pc) {
                if self.r.pc(45) {
                    self.import(&c)
                } else {
                    self.export(&c, d)
                }
            } else {
                self.item(&c, d)
            };
            if i == 0 {
                self.undirect(&mut st);
            }
            pr.bounds.push(pr.toks.len());
            pr.toks.extend(st.t);
            pr.parts.push(st.s);
        }
        pr.bounds.push(pr.toks.len());
        pr
    }
}

fn fn_sx(tag: &str, o: FnO, name: &str, f: &FnR) -> String {
    format!(
        "{}{}{} {}{}{})",
        tag,
        if o.is_async { " async" } else { "" },
        if o.gen { " *" } else { "" },
        name,
        f.sp,
        f.sb
    )
}
