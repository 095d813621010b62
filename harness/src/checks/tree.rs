//! C01-C06: the tree of a valid program is the tree its text specifies.
use crate::gen::*;
use crate::gx::*;
use crate::hole::*;
use crate::rng::Rng;
use crate::run::*;
use crate::tok::*;

pub fn list() -> Vec<(&'static str, super::F)> {
    vec![("C01", c01), ("C02", c02), ("C03", c03), ("C04", c04), ("C05", c05)]
}

pub fn rep(rule: &str, must: &[&str], min: u64) -> Report {
    Report {
        rule: rule.into(),
        assumptions: vec![
            "cases whose text the tokenizer crate `ress` alone does not split into the intended tokens are skipped and counted".into(),
            "the generator's s-expression is the specification; it was cross-checked against acorn 8.19 during development".into(),
        ],
        must_see: must.iter().map(|s| s.to_string()).collect(),
        min_distinct: min,
    }
}

// ---------------------------------------------------------------- C01 statements
fn c01(cfg: &Cfg, o: &mut Obs) -> Report {
    let stmts: Vec<T> = SK.iter().map(|k| k.2).collect();
    cases(cfg, o, "programs", cfg.n(60_000, 1_500_000), |o, r, i| {
        let mut p = Prof::default();
        match i % 4 {
            0 => p = p.boost(&[], &stmts, 3),
            1 => {
                p.items = 12;
                p.fuel = 150;
                p.depth = 5;
            }
            2 => {
                // statements over statements: few kinds of expressions
                p.depth = 14;
                p.fuel = 120;
                for k in [X::Fn, X::Arrow, X::Class, X::Obj, X::Arr].iter() {
                    p.x[*k as usize] = 1;
                }
            }
            _ => {}
        }
        let st = style(r);
        gen_case(o, r, p, &st, None)
    });
    // every statement kind in every pair of surroundings
    let kinds: Vec<T> = stmts.clone();
    let pairs = 32 * 32 * kinds.len() as u64;
    cases(cfg, o, "nesting-pairs", if cfg.thorough { pairs * 4 } else { pairs }, |o, r, i| {
        let i = i % pairs;
        let k = kinds[(i % kinds.len() as u64) as usize];
        let j = i / kinds.len() as u64;
        let mut h = Hole::new(r.pc(20));
        let s = h.ctx.strict;
        h.stmt_wrapper((j % 32) as usize, 1, s);
        while h.expr {
            h.expr_wrapper(20 + r.n(10), 3);
        }
        let s = h.ctx.strict;
        h.stmt_wrapper((j / 32) as usize, 2, s);
        while h.expr {
            h.expr_wrapper(20 + r.n(10), 4);
        }
        let mut g = Gen::new(Rng::new(r.next(), "np", 0), prof_small());
        let c = h.ctx.clone();
        let bad = match k {
            T::Return => !c.func,
            T::Break => !c.in_loop && !c.in_switch && c.labels.is_empty(),
            T::Continue => !c.in_loop,
            T::ForAwait => !c.await_ok,
            T::With => c.strict,
            _ => false,
        };
        if bad {
            o.trivial += 1;
            return Ok(());
        }
        let mut x = g.stmt_node(&c, 3, k, true);
        g.undirect(&mut x);
        let st = style(r);
        if in_hole(o, r, &st, &h, &x.t, &x.s)? {
            note(o, &g);
        }
        Ok(())
    });
    cases(cfg, o, "deep", cfg.n(6_000, 100_000), |o, r, _| {
        let d = 4 + r.n(40);
        let m = r.pc(25);
        let h = Hole::chain(r, d, m, false);
        let mut g = Gen::new(Rng::new(r.next(), "dp", 0), prof_small());
        let (mut t, mut sx) = (vec![], String::new());
        for q in 0..1 + r.n(3) {
            let mut x = g.item(&h.ctx, 3);
            if q == 0 {
                g.undirect(&mut x);
            }
            t.extend(x.t);
            sx.push_str(&x.s);
        }
        let st = style(r);
        if in_hole(o, r, &st, &h, &t, &sx)? {
            o.maxf("chain.levels", h.names.len() as f64);
            note(o, &g);
        }
        Ok(())
    });
    // long lists: many statements, cases, declarators, else-ifs in order
    cases(cfg, o, "long", cfg.n(400, 6_000), |o, r, _| {
        let n = 20 + r.n(300);
        let (mut t, mut s) = (vec![], String::new());
        let k = r.n(6);
        match k {
            0 => {
                t.extend(toks("switch (a) {"));
                s.push_str("(switch (id a)");
                let d = r.n(n);
                for i in 0..n {
                    if i == d {
                        t.extend(toks("default:"));
                        s.push_str("(case _[");
                    } else {
                        t.extend(toks(&format!("case {}:", i)));
                        s.push_str(&format!("(case (num {})[", i));
                    }
                    for j in 0..r.n(3) {
                        t.extend(toks(&format!("c{}_{};", i, j)));
                        s.push_str(&format!("(expr (id c{}_{}))", i, j));
                    }
                    s.push_str("])");
                }
                t.push(p("}"));
                s.push(')');
            }
            1 => {
                for i in 0..n {
                    t.extend(toks(&format!("if (a{}) b{}; else", i, i)));
                    s.push_str(&format!("(if (id a{})(expr (id b{})) else ", i, i));
                }
                t.extend(toks("z;"));
                s.push_str("(expr (id z))");
                s.push_str(&")".repeat(n));
            }
            2 => {
                t.push(w("var"));
                s.push_str("(var");
                for i in 0..n {
                    if i > 0 {
                        t.push(p(","));
                    }
                    if r.pc(50) {
                        t.extend(toks(&format!("v{} = {}", i, i)));
                        s.push_str(&format!(" ((id v{}) = (num {}))", i, i));
                    } else {
                        t.extend(toks(&format!("v{}", i)));
                        s.push_str(&format!(" ((id v{}))", i));
                    }
                }
                t.push(p(";"));
                s.push(')');
            }
            3 => {
                t.push(p("{"));
                s.push_str("(block [");
                for i in 0..n {
                    t.extend(toks(&format!("s{};", i)));
                    s.push_str(&format!("(expr (id s{}))", i));
                    if r.pc(20) {
                        t.push(p(";"));
                        s.push_str("(empty)");
                    }
                }
                t.push(p("}"));
                s.push_str("])");
            }
            4 => {
                for i in 0..n {
                    t.extend(toks(&format!("l{}:", i)));
                    s.push_str(&format!("(label l{}", i));
                }
                t.extend(toks("while (x) break;"));
                s.push_str("(while (id x)(break ))");
                s.push_str(&")".repeat(n));
            }
            _ => {
                // nested ifs without braces: every else belongs to the nearest if
                let n = n.min(120);
                for i in 0..n {
                    t.extend(toks(&format!("if (a{})", i)));
                    s.push_str(&format!("(if (id a{})", i));
                }
                t.extend(toks("z;"));
                s.push_str("(expr (id z))");
                for i in 0..r.n(n) {
                    t.extend(toks(&format!("else b{};", i)));
                    s.push_str(&format!(" else (expr (id b{})))", i));
                }
                let open = s.matches('(').count() - s.matches(')').count();
                s.push_str(&")".repeat(open));
            }
        }
        let st = style(r);
        if exact(o, r, &st, &t, false, &[s])? {
            o.feat(["long.switch", "long.else-if", "long.declarators", "long.block", "long.labels", "long.dangling-else"][k]);
            o.maxf("list.length", n as f64);
        }
        Ok(())
    });
    let must: Vec<String> = SK.iter().map(|k| format!("stmt.{}", k.0)).collect();
    let mut must: Vec<&str> = must.iter().map(|s| s.as_str()).collect();
    must.extend(["long.switch", "long.dangling-else", "in.catch", "in.class-method", "if.dangling-else-avoided"].iter());
    rep(
        "a case counts when a generated program (more than 5 nodes) was parsed and every part compared with its specified tree; distinct by text",
        &must,
        5_000,
    )
}

// ---------------------------------------------------------------- C02 operators
const ALL: &[(&str, u8)] = &[
    ("||", 3), ("&&", 4), ("|", 5), ("^", 6), ("&", 7), ("==", 8), ("!=", 8), ("===", 8), ("!==", 8), ("<", 9), (">", 9), ("<=", 9),
    (">=", 9), ("instanceof", 9), ("in", 9), ("<<", 10), (">>", 10), (">>>", 10), ("+", 11), ("-", 11), ("*", 12), ("/", 12), ("%", 12),
    ("**", 13),
];
fn opt(s: &str) -> Tok {
    if s.as_bytes()[0].is_ascii_alphabetic() {
        w(s)
    } else {
        p(s)
    }
}
/// read a flat operand/operator list by the ECMAScript precedences (written from the
/// specification, not from the parser): lowest level splits last
fn read(xs: &[String], ops: &[(&str, u8)]) -> String {
    if ops.is_empty() {
        return xs[0].clone();
    }
    let low = ops.iter().map(|o| o.1).min().unwrap();
    // left associative: split at the last of the lowest; ** is right associative: the first
    let k = if low == 13 {
        ops.iter().position(|o| o.1 == low).unwrap()
    } else {
        ops.iter().rposition(|o| o.1 == low).unwrap()
    };
    format!("({} {}{})", ops[k].0, read(&xs[..k + 1], &ops[..k]), read(&xs[k + 1..], &ops[k + 1..]))
}
/// an operand: tokens, tree, may stand left of **
fn operand(r: &mut Rng, i: usize, plain: bool) -> (Vec<Tok>, String, bool) {
    let n = format!("x{}", i);
    let id = format!("(id {})", n);
    if plain {
        return (vec![w(&n)], id, true);
    }
    let (t, s, left): (String, String, bool) = match r.n(22) {
        0 => (format!("-{}", n), format!("(u- {})", id), false),
        1 => (format!("+{}", n), format!("(u+ {})", id), false),
        2 => (format!("!{}", n), format!("(u! {})", id), false),
        3 => (format!("~{}", n), format!("(u~ {})", id), false),
        4 => (format!("typeof {}", n), format!("(utypeof {})", id), false),
        5 => (format!("void {}", n), format!("(uvoid {})", id), false),
        6 => (format!("delete {}.p", n), format!("(udelete (. {}(id p)))", id), false),
        7 => (format!("{}++", n), format!("(post++{})", id), true),
        8 => (format!("{}--", n), format!("(post--{})", id), true),
        9 => (format!("++{}", n), format!("(pre++{})", id), true),
        10 => (format!("--{}.q", n), format!("(pre--(. {}(id q)))", id), true),
        11 => (format!("{}(1)", n), format!("(call {}<(num 1)>)", id), true),
        12 => (format!("{}.m[2]", n), format!("(. (. {}(id m))[(num 2)])", id), true),
        13 => (format!("new {}", n), format!("(new {}<>)", id), true),
        14 => (format!("({}, 3)", n), format!("(seq {}(num 3))", id), true),
        15 => (format!("- - {}", n), format!("(u- (u- {}))", id), false),
        16 => (format!("! typeof {}", n), format!("(u! (utypeof {}))", id), false),
        17 => (format!("(-{})", n), format!("(u- {})", id), true),
        18 => ("this".into(), "(this)".into(), true),
        19 => (format!("[{}]", n), format!("(arr {})", id), true),
        20 => (format!("- {}--", n), format!("(u- (post--{}))", id), false),
        _ => (n, id, true),
    };
    (toks(&t), s, left)
}
fn flat(r: &mut Rng, o: &mut Obs, ops: &[(&'static str, u8)], plain: bool) -> (Vec<Tok>, String) {
    let mut t = vec![];
    let mut xs = vec![];
    for i in 0..=ops.len() {
        let mut x = operand(r, i, plain);
        while i < ops.len() && ops[i].0 == "**" && !x.2 {
            x = operand(r, i, plain);
        }
        t.extend(x.0);
        xs.push(x.1);
        if i < ops.len() {
            t.push(opt(ops[i].0));
            o.feat(&format!("op.{}", ops[i].0));
        }
    }
    (t, read(&xs, ops))
}
/// a flat expression of every level: comma, assignment, conditional, arrows, binary
fn flat_full(r: &mut Rng, o: &mut Obs, d: u32, level: u8) -> (Vec<Tok>, String) {
    match level {
        0 => {
            let n = 1 + r.n(3);
            let mut t = vec![];
            let mut s = String::new();
            for i in 0..n {
                let x = flat_full(r, o, d, 1);
                if i > 0 {
                    t.push(p(","));
                }
                t.extend(x.0);
                s.push_str(&x.1);
            }
            if n > 1 {
                o.feat("level.sequence");
                (t, format!("(seq {})", s))
            } else {
                (t, s)
            }
        }
        1 if d > 0 => match r.n(5) {
            0 => {
                o.feat("level.assignment");
                let x = flat_full(r, o, d - 1, 1);
                let (tt, ts) = [("a", "(id a)"), ("a.b", "(. (id a)(id b))"), ("a[b]", "(. (id a)[(id b)])"), ("f().b", "(. (call (id f)<>)(id b))")][r.n(4)];
                let op = if r.pc(50) { "=" } else { COMPOUND[r.n(COMPOUND.len())] };
                let mut t = toks(tt);
                t.push(p(op));
                t.extend(x.0);
                (t, format!("({} {}{})", op, ts, x.1))
            }
            1 => {
                o.feat("level.arrow");
                let x = flat_full(r, o, d - 1, 1);
                let (tt, ts) = [("a =>", "(arrow<(id a)>"), ("() =>", "(arrow<>"), ("(a, b) =>", "(arrow<(id a)(id b)>"), ("async a =>", "(arrow async<(id a)>")][r.n(4)];
                let mut t = toks(tt);
                // the body may not start with a brace here: none of the operands does
                t.extend(x.0);
                // no new line before the arrow or after async
                for k in t.iter_mut().take(8) {
                    k.no_nl = true;
                }
                (t, format!("{}{})", ts, x.1))
            }
            2 => {
                o.feat("level.conditional");
                let a = flat_full(r, o, d - 1, 2);
                let b = flat_full(r, o, d - 1, 1);
                let c = flat_full(r, o, d - 1, 1);
                let mut t = a.0;
                t.push(p("?"));
                t.extend(b.0);
                t.push(p(":"));
                t.extend(c.0);
                (t, format!("(? {}{}{})", a.1, b.1, c.1))
            }
            _ => flat_full(r, o, d, 2),
        },
        _ => {
            let n = r.n(5);
            let ops: Vec<(&'static str, u8)> = (0..n).map(|_| ALL[r.n(ALL.len())]).collect();
            let pl = r.pc(30);
            flat(r, o, &ops, pl)
        }
    }
}
/// chains of members, calls, templates and new, folded from the grammar
fn chain(r: &mut Rng, o: &mut Obs) -> (Vec<Tok>, String) {
    let news = if r.pc(40) { 1 + r.n(3) } else { 0 };
    let mut pending = news;
    let mut t: Vec<Tok> = (0..news).map(|_| w("new")).collect();
    let (b, s0) = [("x", "(id x)"), ("this", "(this)"), ("(y)", "(id y)"), ("'s'", "(str 's')"), ("[1]", "(arr (num 1))"), ("(f())", "(call (id f)<>)")][r.n(6)];
    t.extend(toks(b));
    let mut s = s0.to_string();
    let n = r.n(8);
    for _ in 0..n {
        match r.n(6) {
            0 | 1 => {
                let k = ["a", "if", "new", "of", "class", "get"][r.n(6)];
                t.push(p("."));
                t.push(w(k));
                s = format!("(. {}(id {}))", s, k);
                o.feat("chain.member");
            }
            2 => {
                let ops: Vec<(&'static str, u8)> = (0..r.n(3)).map(|_| ALL[r.n(ALL.len())]).collect();
                let e = flat(r, o, &ops, true);
                t.push(p("["));
                t.extend(e.0);
                t.push(p("]"));
                s = format!("(. {}[{}])", s, e.1);
                o.feat("chain.index");
            }
            3 | 4 => {
                let k = r.n(4);
                let mut a = String::new();
                t.push(p("("));
                for i in 0..k {
                    if i > 0 {
                        t.push(p(","));
                    }
                    if r.pc(20) {
                        t.push(p("..."));
                        t.push(w("r"));
                        a.push_str("(spread (id r))");
                    } else {
                        let ops: Vec<(&'static str, u8)> = (0..r.n(2)).map(|_| ALL[r.n(ALL.len())]).collect();
                        let e = flat(r, o, &ops, false);
                        t.extend(e.0);
                        a.push_str(&e.1);
                    }
                }
                t.push(p(")"));
                if pending > 0 {
                    pending -= 1;
                    s = format!("(new {}<{}>)", s, a);
                    o.feat("chain.new-args");
                } else {
                    s = format!("(call {}<{}>)", s, a);
                    o.feat("chain.call");
                }
            }
            _ => {
                t.push(tk("`q`", K::TplFull));
                s = format!("(tag {}(tpl {{q}}t))", s);
                o.feat("chain.tag");
            }
        }
    }
    for _ in 0..pending {
        s = format!("(new {}<>)", s);
        o.feat("chain.new-bare");
    }
    (t, s)
}
fn op_case(o: &mut Obs, r: &mut Rng, mut x: (Vec<Tok>, String), deep: bool) -> Result<(), Bug> {
    restrict(&mut x.0);
    let st = match r.n(4) {
        0 | 1 => PLAIN,
        2 => TIGHT,
        _ => Style { nl: 10, cm: 8, elide: 0, tight: 60, exotic: true },
    };
    if deep {
        let d = r.n(4);
        let m = r.pc(15);
        let h = Hole::chain(r, d, m, true);
        // the hole of a default value and of `for` heads are the same grammar; arguments and
        // array elements take no comma: keep sequences in parentheses
        let (mut t, s) = x;
        t.insert(0, p("("));
        t.push(p(")"));
        in_hole(o, r, &st, &h, &t, &s)?;
    } else {
        let (mut t, s) = x;
        t.insert(0, p("("));
        t.push(p(")"));
        t.push(p(";").asi(1));
        let bare = r.pc(50);
        if bare {
            // straight as an assigned value
            let mut u = toks("v = ");
            if s.starts_with("(seq ") {
                u.extend(t);
            } else {
                t.remove(0);
                let k = t.len() - 2;
                t.remove(k);
                u.extend(t);
            }
            exact(o, r, &st, &u, false, &[format!("(expr (= (id v){}))", s)])?;
        } else {
            exact(o, r, &st, &t, false, &[format!("(expr {})", s)])?;
        }
    }
    Ok(())
}
fn c02(cfg: &Cfg, o: &mut Obs) -> Report {
    let n = ALL.len() as u64;
    cases(cfg, o, "op-pairs", n * n * 4, |o, r, i| {
        let j = i % (n * n);
        let ops = [ALL[(j % n) as usize], ALL[(j / n) as usize]];
        let plain = i < n * n;
        let x = flat(r, o, &ops, plain);
        o.feat("exhaustive.pair");
        op_case(o, r, x, i >= 3 * n * n)
    });
    cases(cfg, o, "op-triples", n * n * n * if cfg.thorough { 4 } else { 1 }, |o, r, i| {
        let j = i % (n * n * n);
        let ops = [ALL[(j % n) as usize], ALL[(j / n % n) as usize], ALL[(j / n / n) as usize]];
        let x = flat(r, o, &ops, i % 3 == 0);
        o.feat("exhaustive.triple");
        op_case(o, r, x, false)
    });
    if cfg.thorough {
        cases(cfg, o, "op-quads", n * n * n * n, |o, r, i| {
            let ops = [ALL[(i % n) as usize], ALL[(i / n % n) as usize], ALL[(i / n / n % n) as usize], ALL[(i / n / n / n) as usize]];
            let x = flat(r, o, &ops, true);
            o.feat("exhaustive.quad");
            op_case(o, r, x, false)
        });
    }
    cases(cfg, o, "flat", cfg.n(60_000, 1_500_000), |o, r, _| {
        let d = 1 + r.n(4) as u32;
        let x = flat_full(r, o, d, 0);
        let deep = r.pc(30);
        op_case(o, r, x, deep)
    });
    cases(cfg, o, "long", cfg.n(4_000, 60_000), |o, r, _| {
        let k = 5 + r.n(60);
        let sub: Vec<(&'static str, u8)> = (0..2 + r.n(5)).map(|_| ALL[r.n(ALL.len())]).collect();
        let ops: Vec<(&'static str, u8)> = (0..k).map(|_| sub[r.n(sub.len())]).collect();
        let pl = r.pc(50);
        let x = flat(r, o, &ops, pl);
        o.maxf("operators.in.one.expression", k as f64);
        op_case(o, r, x, false)
    });
    // levels that rise and fall, step by step: as many operators waiting for their right side as there are levels
    cases(cfg, o, "waves", cfg.n(30_000, 600_000), |o, r, _| {
        let mut lv: Vec<u8> = ALL.iter().map(|k| k.1).collect();
        lv.sort();
        lv.dedup();
        let (mut ops, mut most) = (vec![], 0);
        let k = 3 + r.n(40);
        let mut at = r.n(3);
        let (mut up, mut run) = (true, 1);
        for _ in 0..k {
            let of: Vec<(&'static str, u8)> = ALL.iter().cloned().filter(|k| k.1 == lv[at]).collect();
            ops.push(of[r.n(of.len())]);
            let step = if r.pc(80) { 1 } else { r.n(3) };
            if up && at + step < lv.len() && r.pc(93) {
                at += step;
                run += 1;
                most = most.max(run);
            } else if !up && at >= step && r.pc(70) {
                at -= step;
            } else {
                up = !up || at == 0;
                at = if r.pc(60) { r.n(at + 1) } else { at };
                run = 1;
            }
        }
        o.maxf("operators that wait for one another", most as f64);
        o.feat("wave");
        let pl = r.pc(50);
        let x = flat(r, o, &ops, pl);
        op_case(o, r, x, false)
    });
    cases(cfg, o, "chains", cfg.n(30_000, 600_000), |o, r, _| {
        let x = chain(r, o);
        let deep = r.pc(30);
        op_case(o, r, x, deep)
    });
    cases(cfg, o, "programs", cfg.n(25_000, 600_000), |o, r, _| {
        let xs = [X::Assign, X::Comp, X::Cond, X::Logic, X::Bin, X::Unary, X::Update, X::Call, X::New, X::Member, X::Index, X::Tag, X::Seq, X::Paren];
        let mut p = Prof::default().boost(&xs, &[T::Expr], 4);
        p.depth = 9;
        let st = style(r);
        gen_case(o, r, p, &st, None)
    });
    let must: Vec<String> = ALL.iter().map(|k| format!("op.{}", k.0)).collect();
    let mut must: Vec<&str> = must.iter().map(|s| s.as_str()).collect();
    must.extend(["wave", "exhaustive.pair", "exhaustive.triple", "level.conditional", "level.arrow", "level.assignment", "level.sequence", "chain.new-args", "chain.new-bare", "chain.tag", "op.unary.typeof", "update.postfix"].iter());
    rep(
        "a case counts when a flat operator expression (all operator pairs and triples, random longer ones, member/call/new chains) was parsed and its tree equals the reading by an independent precedence table; distinct by text",
        &must,
        20_000,
    )
}

// ---------------------------------------------------------------- C03 functions, classes, methods
const KEYS: &[(&str, &str)] = &[
    ("m", "(id m)"), ("get", "(id get)"), ("set", "(id set)"), ("static", "(id static)"), ("async", "(id async)"), ("of", "(id of)"), ("yield", "(id yield)"),
    ("await", "(id await)"), ("let", "(id let)"), ("if", "(id if)"), ("class", "(id class)"), ("function", "(id function)"), ("new", "(id new)"), ("null", "(id null)"),
    ("true", "(id true)"), ("delete", "(id delete)"), ("default", "(id default)"), ("super", "(id super)"), ("in", "(id in)"), ("enum", "(id enum)"), ("eval", "(id eval)"), ("target", "(id target)"),
    ("'s'", "(str 's')"), ("'get'", "(str 'get')"), ("\"\"", "(str \"\")"), ("'constructo'", "(str 'constructo')"), ("0", "(num 0)"), ("1.5", "(num 1.5)"),
    ("0x1F", "(num 0x1F)"), ("[k]", "[(id k)]"), ("['constructor']", "[(str 'constructor')]"), ("['prototype']", "[(str 'prototype')]"), ("[(a, b)]", "[(seq (id a)(id b))]"), ("[a = b]", "[(= (id a)(id b))]"), ("[a in b]", "[(in (id a)(id b))]"), ("[get]", "[(id get)]"), ("$", "(id $)"), ("ñ", "(id ñ)"),
];
fn c03(cfg: &Cfg, o: &mut Obs) -> Report {
    let nk = KEYS.len() as u64;
    // kind(6) x static(3: object, class, class static) x keys, then pairs of members
    let total = 6 * 3 * nk;
    cases(cfg, o, "member-matrix", total * cfg.n(6, 60), |o, r, i| {
        let j = i % total;
        let first = ((j % 6) as usize, ((j / 6) % 3) as usize, (j / 18) as usize);
        let host = first.1;
        let mut t = vec![];
        let mut s = String::new();
        let n = 1 + r.n(4);
        let at = r.n(n);
        for q in 0..n {
            let (kind, st, key) = if q == at { first } else { (r.n(6), if host == 0 { 0 } else { 1 + r.n(2) }, r.n(KEYS.len())) };
            let (kt, ks) = KEYS[key];
            if st == 2 {
                t.push(w("static"));
                o.feat("member.static");
            }
            let mut key = toks(kt);
            match kind {
                1 => t.push(w("get")),
                2 => t.push(w("set")),
                3 => {
                    t.push(w("async"));
                    key[0].no_nl = true;
                }
                4 => t.push(p("*")),
                5 => {
                    t.push(w("async"));
                    t.push(p("*").nn());
                }
                _ => {}
            }
            t.extend(key);
            let (pt, ps) = match kind {
                1 => ("()", "<>"),
                2 => [("(v)", "<(id v)>"), ("([v])", "<(arrpat (id v))>"), ("(v = 1)", "<(def (id v)(num 1))>")][r.n(3)],
                _ => [("()", "<>"), ("(p)", "<(id p)>"), ("(p, q = 1, ...r)", "<(id p)(def (id q)(num 1))(rest (id r))>"), ("({ p }, [q],)", "<(objpat(p short (id p)(id p)))(arrpat (id q))>")][r.n(4)],
            };
            t.extend(toks(pt));
            let body = [("{}", ""), ("{ return 1; }", "(return (num 1))"), ("{ super.x(); }", "(expr (call (. (super)(id x))<>))"), ("{ new.target; }", "(expr (meta new.target))")][r.n(4)];
            t.extend(toks(body.0));
            let flags = ["", "", "", " async", " *", " async *"][kind];
            let f = format!("(fn{} {}[{}])", flags, ps, body.1);
            if host == 0 {
                s.push_str(&format!("({}{}{})", ["init method ", "get ", "set ", "init method ", "init method ", "init method "][kind], ks, f));
                if q + 1 < n || r.pc(30) {
                    t.push(p(","));
                }
            } else {
                s.push_str(&format!("({}{}{})", ["method ", "get ", "set ", "method ", "method ", "method "][kind], ks, f));
                if r.pc(20) {
                    t.push(p(";"));
                }
            }
            o.feat(&format!("member.kind{}.host{}", kind, host));
        }
        let (mut tt, mut ss);
        match host {
            0 => {
                tt = toks("x = {");
                tt.extend(t);
                tt.extend(toks("};"));
                ss = format!("(expr (= (id x)(obj{})))", s);
            }
            _ => {
                let ext = r.pc(30);
                let ctor = r.pc(40);
                let head = match r.n(3) {
                    0 => ("class C", "(classdecl C", "", ")"),
                    1 => ("x = class D", "(expr (= (id x)(class D", ";", ")))"),
                    _ => ("x = class", "(expr (= (id x)(class ", ";", ")))"),
                };
                tt = toks(head.0);
                ss = head.1.to_string();
                if ext {
                    let (a, b) = [("extends B", " extends (id B)"), ("extends b.c(d)", " extends (call (. (id b)(id c))<(id d)>)"), ("extends (a, b)", " extends (seq (id a)(id b))"), ("extends class {}", " extends (class )")][r.n(4)];
                    tt.extend(toks(a));
                    ss.push_str(b);
                }
                tt.push(p("{"));
                let (a, b) = if ctor {
                    o.feat("member.constructor");
                    let n = ["constructor", "'constructor'", "\"constructor\""][r.n(3)];
                    let k = if n.starts_with('c') { format!("(id {})", n) } else { format!("(str {})", n) };
                    (toks(&format!("{}(a) {{ {} }}", n, if ext { "super(a);" } else { "" })), format!("(ctor {}(fn <(id a)>[{}]))", k, if ext { "(expr (call (super)<(id a)>))" } else { "" }))
                } else {
                    (vec![], String::new())
                };
                if r.pc(50) {
                    tt.extend(a);
                    tt.extend(t);
                    ss.push_str(&b);
                    ss.push_str(&s);
                } else {
                    tt.extend(t);
                    tt.extend(a);
                    ss.push_str(&s);
                    ss.push_str(&b);
                }
                tt.push(p("}"));
                tt.extend(toks(head.2));
                ss.push_str(head.3);
            }
        }
        // no member named prototype is static, and no accessor is named constructor here
        let st = style(r);
        if r.pc(40) {
            let d = r.n(4);
            let m = r.pc(20);
            let h = Hole::chain(r, d, m, false);
            in_hole(o, r, &st, &h, &tt, &ss)?;
        } else {
            exact(o, r, &st, &tt, false, &[ss])?;
        }
        Ok(())
    });
    // every kind of function with every kind of parameter list and body, in every surrounding
    const PARAMS: &[(&str, &str)] = &[
        ("()", "<>"), ("(a)", "<(id a)>"), ("(a, b)", "<(id a)(id b)>"), ("(a,)", "<(id a)>"), ("(...a)", "<(rest (id a))>"), ("(a, ...b)", "<(id a)(rest (id b))>"),
        ("(a = 1)", "<(def (id a)(num 1))>"), ("(a = b, c = a)", "<(def (id a)(id b))(def (id c)(id a))>"), ("({ a, b: c })", "<(objpat(p short (id a)(id a))(p (id b)(id c)))>"),
        ("([a, , b])", "<(arrpat (id a) _ (id b))>"), ("([a] = b)", "<(def (arrpat (id a))(id b))>"), ("({ a = 1 } = {})", "<(def (objpat(p short (id a)(def (id a)(num 1))))(obj))>"),
        ("(...[a, b])", "<(rest (arrpat (id a) (id b)))>"), ("(a, { b, ...c }, [d, ...e])", "<(id a)(objpat(p short (id b)(id b))(rest (id c)))(arrpat (id d) (rest (id e)))>"),
        ("(a = function () {}, b = () => c, d = class {})", "<(def (id a)(fn <>[]))(def (id b)(arrow<>(id c)))(def (id d)(class ))>"),
        ("(a = (b, c))", "<(def (id a)(seq (id b)(id c)))>"), ("(a = b in c)", "<(def (id a)(in (id b)(id c)))>"),
    ];
    const BODY: &[(&str, &str)] = &[
        ("{}", "[]"), ("{ return; }", "[(return _)]"), ("{ return a; }", "[(return (id a))]"), ("{ ; }", "[(empty)]"), ("{ function g() {} }", "[(fndecl g<>[])]"),
        ("{ 'd'; a; }", "[(dir (str 'd'))(expr (id a))]"), ("{ var a; let b2; }", "[(var ((id a)))(let ((id b2)))]"), ("{ { return a } }", "[(block [(return (id a))])]"),
        ("{ return function () { return 1 } }", "[(return (fn <>[(return (num 1))]))]"), ("{ 'd' + a; }", "[(expr (+ (str 'd')(id a)))]"), ("{ a; 'd'; }", "[(expr (id a))(expr (str 'd'))]"),
    ];
    // head, tree head, position: s statement, e expression (in parentheses), t tail
    const HEADS: &[(&str, &str, char)] = &[
        ("function f", "(fndecl f", 's'), ("function* f", "(fndecl * f", 's'), ("async function f", "(expr (fn async f", 'S'), ("async function* f", "(expr (fn async * f", 'S'),
        ("function", "(fn ", 'e'), ("function f", "(fn f", 'e'), ("function*", "(fn * ", 'e'), ("function* f", "(fn * f", 'e'), ("async function", "(fn async ", 'e'), ("async function f", "(fn async f", 'e'),
        ("async function*", "(fn async * ", 'e'), ("async function* f", "(fn async * f", 'e'), ("", "(arrow", 'a'), ("async", "(arrow async", 'a'),
        ("{ m", "(obj(init method (id m)(fn ", 'm'), ("{ *m", "(obj(init method (id m)(fn * ", 'm'), ("{ async m", "(obj(init method (id m)(fn async ", 'm'), ("{ async *m", "(obj(init method (id m)(fn async * ", 'm'),
        ("class { m", "(class (method (id m)(fn ", 'c'), ("class { static m", "(class (method (id m)(fn ", 'c'), ("class { async m", "(class (method (id m)(fn async ", 'c'), ("class { constructor", "(class (ctor (id constructor)(fn ", 'c'),
    ];
    let (a, b, c) = (HEADS.len() as u64, PARAMS.len() as u64, BODY.len() as u64);
    cases(cfg, o, "function-matrix", a * b * c * cfg.n(2, 20), |o, r, i| {
        let i = i % (a * b * c);
        let (ht, hs, pos) = HEADS[(i % a) as usize];
        let (pt, ps) = PARAMS[(i / a % b) as usize];
        let (bt, bs) = BODY[(i / a / b) as usize];
        let (t, mut s) = match pos {
            's' | 'S' => (format!("{} {} {}", ht, pt, bt), format!("{}{}{}", hs, ps, bs)),
            'e' => (format!("x = {} {} {};", ht, pt, bt), format!("(expr (= (id x){}{}{}", hs, ps, bs)),
            'a' => (format!("x = {} {} => {};", ht, pt, bt), format!("(expr (= (id x){}{}{}", hs, ps, bs)),
            _ => (format!("x = {} {} {} }};", ht, pt, bt), format!("(expr (= (id x){}{}{}", hs, ps, bs)),
        };
        let open = s.matches('(').count() - s.matches(')').count();
        s.push_str(&")".repeat(open));
        let mut tt = toks(&t);
        restrict(&mut tt);
        o.feat(&format!("function.{}", if ht.is_empty() { "arrow" } else { ht }));
        let st = style(r);
        if r.pc(60) {
            let d = r.n(5);
            let m = r.pc(20);
            let h = Hole::chain(r, d, m, false);
            in_hole(o, r, &st, &h, &tt, &s)?;
        } else {
            exact(o, r, &st, &tt, false, &[s])?;
        }
        Ok(())
    });
    cases(cfg, o, "programs", cfg.n(40_000, 1_000_000), |o, r, i| {
        let xs = [X::Fn, X::AFn, X::GFn, X::AGFn, X::Class, X::Arrow, X::AArrow, X::Obj, X::Super, X::NewTarget, X::Yield, X::Await];
        let ts = [T::Fn, T::AFn, T::GFn, T::AGFn, T::Class, T::Return];
        let mut p = Prof::default().boost(&xs, &ts, 4);
        if i % 3 == 0 {
            p.depth = 12;
            p.fuel = 120;
        }
        let st = style(r);
        gen_case(o, r, p, &st, None)
    });
    rep(
        "a case counts when a function, method or class from the exhaustive member/parameter/body matrices or a generated program was parsed and its tree equals the specification; distinct by text",
        &["method.plain", "method.get", "method.set", "method.async", "method.generator", "method.async-generator", "class.constructor", "class.static", "member.static", "member.constructor", "member.kind5.host2", "function.async function* f", "param.rest", "expr.super", "expr.new.target", "super.call"],
        10_000,
    )
}

// ---------------------------------------------------------------- C04 patterns and arrow parameters
fn c04(cfg: &Cfg, o: &mut Obs) -> Report {
    // every position that takes a pattern
    const BIND: &[(&str, &str)] = &[
        ("var § = v ;", "(var (§ = (id v)))"), ("let § = v ;", "(let (§ = (id v)))"), ("const § = v ;", "(const (§ = (id v)))"), ("var a0, § = v, b0 ;", "(var ((id a0)) (§ = (id v)) ((id b0)))"),
        ("for (var § of v) ;", "(forof (var (§))(id v)(empty))"), ("for (let § in v) ;", "(forin (let (§))(id v)(empty))"), ("for (const § of v) ;", "(forof (const (§))(id v)(empty))"),
        ("for (let § = v ; ;) ;", "(for (let (§ = (id v)));_;_(empty))"), ("for (const § in a, b) ;", "(forin (const (§))(seq (id a)(id b))(empty))"),
        ("try {} catch (§) {}", "(try [](catch §[]))"), ("function f(§) {}", "(fndecl f<§>[])"), ("function f(a0, § = d) {}", "(fndecl f<(id a0)(def §(id d))>[])"), ("x = function (§, b0) {} ;", "(expr (= (id x)(fn <§(id b0)>[])))"),
        ("x = (§) => c ;", "(expr (= (id x)(arrow<§>(id c))))"), ("x = (a0, §) => {} ;", "(expr (= (id x)(arrow<(id a0)§>[])))"), ("x = (§ = d, ...r0) => c ;", "(expr (= (id x)(arrow<(def §(id d))(rest (id r0))>(id c))))"),
        ("x = async (§) => c ;", "(expr (= (id x)(arrow async<§>(id c))))"), ("x = async (a0, § = d) => {} ;", "(expr (= (id x)(arrow async<(id a0)(def §(id d))>[])))"),
        ("f((§, b0) => c) ;", "(expr (call (id f)<(arrow<§(id b0)>(id c))>))"), ("x = { m(§) {} } ;", "(expr (= (id x)(obj(init method (id m)(fn <§>[])))))"), ("x = { set m(§) {} } ;", "(expr (= (id x)(obj(set (id m)(fn <§>[])))))"),
        ("class A { m(§) {} }", "(classdecl A(method (id m)(fn <§>[])))"), ("class A { static set m(§) {} }", "(classdecl A(set (id m)(fn <§>[])))"), ("class A { constructor(§) {} }", "(classdecl A(ctor (id constructor)(fn <§>[])))"),
        ("x = function* (§) {} ;", "(expr (= (id x)(fn * <§>[])))"), ("x = async function (...§) {} ;", "(expr (= (id x)(fn async <(rest §)>[])))"), ("x = (...§) => c ;", "(expr (= (id x)(arrow<(rest §)>(id c))))"),
        ("x = y = (§) => (z) => c ;", "(expr (= (id x)(= (id y)(arrow<§>(arrow<(id z)>(id c))))))"),
    ];
    const ASSIGN: &[(&str, &str)] = &[
        ("x = § = v ;", "(expr (= (id x)(= §(id v))))"), ("( § = v ) ;", "(expr (= §(id v)))"), ("f(§ = v) ;", "(expr (call (id f)<(= §(id v))>))"), ("x = [§ = v] ;", "(expr (= (id x)(arr (= §(id v)))))"),
        ("x = { k: § = v } ;", "(expr (= (id x)(obj(init (id k)(= §(id v))))))"), ("for (§ of v) ;", "(forof §(id v)(empty))"), ("for (§ in v) ;", "(forin §(id v)(empty))"), ("[§] = v ;", "(expr (= (arrpat §)(id v)))"),
        ("[a0, § = d] = v ;", "(expr (= (arrpat (id a0) (def §(id d)))(id v)))"), ("({ k: § } = v) ;", "(expr (= (objpat(p (id k)§))(id v)))"), ("({ k: § = d, ...r0 } = v) ;", "(expr (= (objpat(p (id k)(def §(id d)))(rest (id r0)))(id v)))"),
        ("[...§] = v ;", "(expr (= (arrpat (rest §))(id v)))"), ("x = a ? § = v : w ;", "(expr (= (id x)(? (id a)(= §(id v))(id w))))"), ("for (§ = v ; ;) ;", "(for (= §(id v));_;_(empty))"), ("x => (§ = v) ;", "(expr (arrow<(id x)>(= §(id v))))"),
        ("if (§ = v) ;", "(if (= §(id v))(empty))"), ("`${ § = v » ;", "(expr (tpl {} {}t (= §(id v))))"), ("x[§ = v] ;", "(expr (. (id x)[(= §(id v))]))"), ("({ [§ = v]: a }) ;", "(expr (obj(init [(= §(id v))](id a))))"),
    ];
    let nb = BIND.len() as u64;
    cases(cfg, o, "binding-positions", nb * cfg.n(900, 20_000), |o, r, i| {
        let (bt, bs) = BIND[(i % nb) as usize];
        let d = if r.pc(50) { 0 } else { r.n(4) };
        let m = r.pc(15);
        let h = Hole::chain(r, d, m, false);
        let mut c = h.ctx.clone();
        // parameters: no yield or await expressions in default values
        c.yield_ok = false;
        c.await_ok = false;
        c.yield_res = true;
        c.await_res = true;
        c.super_prop = false;
        c.super_call = false;
        c.new_target = false;
        c.labels.clear();
        c.strict |= bt.contains("class");
        let mut g = Gen::new(Rng::new(r.next(), "bp", 0), prof_small());
        g.prof.names_pc = 10;
        let depth = 1 + r.n(4) as u32;
        let (pt, ps) = g.bpat(&c, depth, true);
        let (a, b) = bt.split_once('§').unwrap();
        let mut t = toks(a);
        t.extend(pt);
        t.extend(toks(b));
        let s = bs.replace('§', &ps);
        restrict(&mut t);
        let st = style(r);
        if in_hole(o, r, &st, &h, &t, &s)? {
            o.feat(&format!("position.{}", bt));
            note(o, &g);
        }
        Ok(())
    });
    let na = ASSIGN.len() as u64;
    cases(cfg, o, "target-positions", na * cfg.n(900, 20_000), |o, r, i| {
        let (bt, bs) = ASSIGN[(i % na) as usize];
        let d = if r.pc(50) { 0 } else { r.n(4) };
        let m = r.pc(15);
        let h = Hole::chain(r, d, m, false);
        let mut c = h.ctx.clone();
        c.labels.clear();
        if bt.starts_with("x =>") {
            c.yield_ok = false;
            c.yield_res = true;
            c.await_ok = false;
            c.await_res = true;
        }
        let mut g = Gen::new(Rng::new(r.next(), "ap", 0), prof_small());
        let depth = 1 + r.n(4) as u32;
        let (pt, ps) = g.apat(&c, depth);
        let (a, b) = bt.split_once('§').unwrap();
        let mut t = toks(a);
        t.extend(pt);
        t.extend(toks(b));
        let s = bs.replace('§', &ps);
        restrict(&mut t);
        let st = style(r);
        if in_hole(o, r, &st, &h, &t, &s)? {
            o.feat(&format!("position.{}", bt));
            note(o, &g);
        }
        Ok(())
    });
    // the same text as an expression and as a pattern: cover grammar
    cases(cfg, o, "cover", cfg.n(20_000, 400_000), |o, r, _| {
        let c = Ctx { await_res: true, ..Ctx::script() };
        let mut g = Gen::new(Rng::new(r.next(), "cv", 0), prof_small());
        let d = 1 + r.n(4) as u32;
        // two parameters lists: as arrow parameters, and (same tokens) as call arguments of f
        let x = cover(&mut g, &c, d);
        let y = cover(&mut g, &c, d);
        let mut t = toks("f(");
        t.extend(x.0.clone());
        t.push(p(","));
        t.extend(y.0.clone());
        t.extend(toks(");"));
        let st = style(r);
        exact(o, r, &st, &t, false, &[format!("(expr (call (id f)<{}{}>))", x.1, y.1)])?;
        for (head, tag) in [("x = (", "(arrow"), ("x = async (", "(arrow async")].iter() {
            let mut t = toks(head);
            t.extend(x.0.clone());
            t.push(p(","));
            t.extend(y.0.clone());
            t.extend(toks(") => z;"));
            restrict(&mut t);
            exact(o, r, &st, &t, false, &[format!("(expr (= (id x){}<{}{}>(id z))))", tag, x.2, y.2)])?;
        }
        o.feat("cover.call-and-arrow");
        let mut t = toks("x = (");
        t.extend(x.0.clone());
        t.push(p(","));
        t.extend(y.0.clone());
        t.extend(toks(");"));
        exact(o, r, &st, &t, false, &[format!("(expr (= (id x)(seq {}{})))", x.1, y.1)])?;
        let mut t = toks("x = async (");
        t.extend(x.0.clone());
        t.push(p(","));
        t.extend(y.0.clone());
        t.extend(toks(");"));
        exact(o, r, &st, &t, false, &[format!("(expr (= (id x)(call (id async)<{}{}>)))", x.1, y.1)])?;
        let mut t = toks("[");
        t.extend(x.0.clone());
        t.push(p(","));
        t.extend(y.0.clone());
        t.extend(toks("] = z;"));
        exact(o, r, &st, &t, false, &[format!("(expr (= (arrpat {} {})(id z)))", x.2, y.2)])?;
        Ok(())
    });
    cases(cfg, o, "programs", cfg.n(25_000, 700_000), |o, r, _| {
        let p = Prof::default().boost(&[X::AssignPat, X::Arrow, X::AArrow, X::Fn], &[T::Var, T::Let, T::Const, T::ForIn, T::ForOf, T::Try, T::Fn], 4);
        let st = style(r);
        gen_case(o, r, p, &st, None)
    });
    let mut must: Vec<String> = BIND.iter().chain(ASSIGN.iter()).map(|k| format!("position.{}", k.0)).collect();
    must.extend(["pattern.array", "pattern.object-rest", "pattern.shorthand-default", "pattern.hole", "pattern.array-rest", "target.object", "target.array-rest", "target.object-rest", "cover.call-and-arrow", "arrow.bare-param", "param.rest-pattern"].iter().map(|s| s.to_string()));
    let must: Vec<&str> = must.iter().map(|s| s.as_str()).collect();
    rep(
        "a case counts when a generated pattern in one of the listed binding or assignment positions, or a token sequence read both as expressions and as parameters, was parsed and its tree equals the specification; distinct by text",
        &must,
        20_000,
    )
}
/// tokens that are an expression and a pattern: (tokens, expression tree, pattern tree)
fn cover(g: &mut Gen, c: &Ctx, d: u32) -> (Vec<Tok>, String, String) {
    if d == 0 || g.r.pc(20) {
        let b = g.binding(c, true);
        let s = format!("(id {})", b);
        if g.r.pc(30) {
            let x = g.expr(c, 1, 1);
            let mut t = vec![w(&b), p("=")];
            t.extend(x.t);
            return (t, format!("(= {}{})", s, x.s), format!("(def {}{})", s, x.s));
        }
        return (vec![w(&b)], s.clone(), s);
    }
    let n = g.r.n(4);
    let arr = g.r.pc(50);
    let mut t = vec![p(if arr { "[" } else { "{" })];
    let mut e = if arr { "(arr".to_string() } else { "(obj".to_string() };
    let mut q = if arr { "(arrpat".to_string() } else { "(objpat".to_string() };
    for i in 0..n {
        if arr {
            e.push(' ');
            q.push(' ');
            if g.r.pc(12) {
                t.push(p(","));
                e.push('_');
                q.push('_');
                continue;
            }
            if i + 1 == n && g.r.pc(20) {
                let b = g.binding(c, true);
                t.push(p("..."));
                t.push(w(&b));
                e.push_str(&format!("(spread (id {}))", b));
                q.push_str(&format!("(rest (id {}))", b));
                continue;
            }
            let x = cover(g, c, d - 1);
            t.extend(x.0);
            e.push_str(&x.1);
            q.push_str(&x.2);
        } else {
            if i + 1 == n && g.r.pc(15) {
                let b = g.binding(c, true);
                t.push(p("..."));
                t.push(w(&b));
                e.push_str(&format!("(spread (id {}))", b));
                q.push_str(&format!("(rest (id {}))", b));
                continue;
            }
            if g.r.pc(40) {
                let b = g.binding(c, true);
                t.push(w(&b));
                e.push_str(&format!("(init short (id {}))", b));
                q.push_str(&format!("(p short (id {})(id {}))", b, b));
            } else {
                let (kt, ks) = KEYS[g.r.n(KEYS.len())];
                let x = cover(g, c, d - 1);
                t.extend(toks(kt));
                t.push(p(":"));
                t.extend(x.0);
                e.push_str(&format!("(init {}{})", ks, x.1));
                q.push_str(&format!("(p {}{})", ks, x.2));
            }
        }
        if i + 1 < n || g.r.pc(12) {
            t.push(p(","));
        }
    }
    t.push(p(if arr { "]" } else { "}" }));
    e.push(')');
    q.push(')');
    (t, e, q)
}

// ---------------------------------------------------------------- C05 modules
fn c05(cfg: &Cfg, o: &mut Obs) -> Report {
    const NAMES: &[&str] = &["a", "b1", "$", "ñ", "of", "get", "set", "async", "from", "as", "target", "constructor", "type", "meta", "undefined"];
    const ANY: &[&str] = &[
        "x", "if", "default", "class", "null", "true", "false", "this", "in", "new", "import", "export", "let", "static", "yield", "await", "from", "as", "of", "async", "get", "set", "enum", "function", "var", "typeof",
        "delete", "void", "super", "return", "eval", "arguments",
    ];
    const SRC: &[&str] = &["'m'", "\"m\"", "''", "'./a/b.js'", "\"日本\"", "'it\\'s'", "'from'"];
    // structured: one declaration of every form with words from both lists, a statement after it
    cases(cfg, o, "forms", cfg.n(60_000, 1_200_000), |o, r, i| {
        let k = (i % 30) as usize;
        let src = SRC[r.n(SRC.len())];
        let mut used: Vec<&str> = vec![];
        let mut fresh = |r: &mut Rng| -> &'static str {
            loop {
                let n = NAMES[r.n(NAMES.len())];
                if !used.contains(&n) {
                    used.push(n);
                    return n;
                }
            }
        };
        let ssrc = format!("(str {})", src);
        // list of import names / export names
        let n = r.n(5);
        let mut names_i = (String::from("{"), String::new());
        for j in 0..n {
            if r.pc(50) {
                let b = fresh(r);
                names_i.0.push_str(&format!(" {}", b));
                names_i.1.push_str(&format!("(n {})", b));
            } else if r.pc(20) {
                // the same name on both sides
                let b = fresh(r);
                names_i.0.push_str(&format!(" {} as {}", b, b));
                names_i.1.push_str(&format!("(n {} {})", b, b));
            } else {
                let b = fresh(r);
                let a = ANY[r.n(ANY.len())];
                names_i.0.push_str(&format!(" {} as {}", a, b));
                names_i.1.push_str(&format!("(n {} {})", a, b));
            }
            if j + 1 < n || r.pc(30) {
                names_i.0.push_str(" ,");
            }
        }
        names_i.0.push_str(" }");
        let mut outs: Vec<String> = vec![];
        let mut names_e = |r: &mut Rng, from: bool| -> (String, String) {
            let mut e = (String::from("{"), String::new());
            for j in 0..n {
                let l = if from { ANY[r.n(ANY.len())] } else { ["v1", "v2", "v3"][r.n(3)] };
                let out = if r.pc(50) { l } else { ANY[r.n(ANY.len())] };
                if outs.iter().any(|x| x == out) {
                    continue;
                }
                outs.push(out.to_string());
                if out == l && r.pc(70) {
                    e.0.push_str(&format!(" {}", l));
                    e.1.push_str(&format!("({})", l));
                } else {
                    e.0.push_str(&format!(" {} as {}", l, out));
                    e.1.push_str(&format!("({} {})", l, out));
                }
                if j + 1 < n || r.pc(30) {
                    e.0.push_str(" ,");
                }
            }
            e.0.push_str(" }");
            e
        };
        let (t, s): (String, String) = match k {
            0 => (format!("import {} ;", src), format!("(import {})", ssrc)),
            1 => {
                let a = fresh(r);
                (format!("import {} from {} ;", a, src), format!("(import (d {}){})", a, ssrc))
            }
            2 => {
                let a = fresh(r);
                (format!("import * as {} from {} ;", a, src), format!("(import (* {}){})", a, ssrc))
            }
            3 | 4 => (format!("import {} from {} ;", names_i.0, src), format!("(import {}{})", names_i.1, ssrc)),
            5 => {
                let a = fresh(r);
                (format!("import {} , {} from {} ;", a, names_i.0, src), format!("(import (d {}){}{})", a, names_i.1, ssrc))
            }
            6 => {
                let (a, b) = (fresh(r), fresh(r));
                (format!("import {} , * as {} from {} ;", a, b, src), format!("(import (d {})(* {}){})", a, b, ssrc))
            }
            7 => (format!("export * from {} ;", src), format!("(export-all {})", ssrc)),
            8 | 9 => {
                let e = names_e(r, true);
                (format!("export {} from {} ;", e.0, src), format!("(export-names {}{})", e.1, ssrc))
            }
            10 | 11 => {
                let e = names_e(r, false);
                (format!("export {} ;", e.0), format!("(export-names {})", e.1))
            }
            12 => ("export var q1 = 1 , q2 ;".into(), "(export (var ((id q1) = (num 1)) ((id q2))))".into()),
            13 => ("export let q1 = 1 , q2 ;".into(), "(export (let ((id q1) = (num 1)) ((id q2))))".into()),
            14 => ("export const q1 = 1 , [ q2 ] = x ;".into(), "(export (const ((id q1) = (num 1)) ((arrpat (id q2)) = (id x))))".into()),
            15 => ("export function q1 ( a ) { return a }".into(), "(export (fndecl q1<(id a)>[(return (id a))]))".into()),
            16 => ("export function * q1 ( ) { yield 1 }".into(), "(export (fndecl * q1<>[(expr (yield (num 1)))]))".into()),
            17 => ("export async function q1 ( ) { await 1 }".into(), "(export (fndecl async q1<>[(expr (await (num 1)))]))".into()),
            18 => ("export class Q1 extends A { m ( ) { } }".into(), "(export (classdecl Q1 extends (id A)(method (id m)(fn <>[]))))".into()),
            19 => ("export default function ( ) { }".into(), "(export-default (fndecl <>[]))".into()),
            20 => ("export default function q1 ( ) { }".into(), "(export-default (fndecl q1<>[]))".into()),
            21 => ("export default class { }".into(), "(export-default (classdecl ))".into()),
            22 => ("export default class Q1 { }".into(), "(export-default (classdecl Q1))".into()),
            23 => ("export default async function ( ) { }".into(), "(export-default (fndecl async <>[]))".into()),
            24 => ("export default async ( a ) => a ;".into(), "(export-default (arrow async<(id a)>(id a)))".into()),
            25 => ("export default ( function ( ) { } ) ;".into(), "(export-default (fn <>[]))".into()),
            26 => {
                let e = [("[ a , b ]", "(arr (id a) (id b))"), ("{ a : b }", "(obj(init (id a)(id b)))"), ("a = b", "(= (id a)(id b))"), ("a => b", "(arrow<(id a)>(id b))"), ("async", "(id async)"), ("a . b ( c )", "(call (. (id a)(id b))<(id c)>)"), ("- 1 + x", "(+ (u- (num 1))(id x))"), ("a ? b : c", "(? (id a)(id b)(id c))"), ("( a , b )", "(seq (id a)(id b))"), ("null", "(null)")][r.n(10)];
                (format!("export default {} ;", e.0), format!("(export-default {})", e.1))
            }
            27 => ("export default function * ( ) { }".into(), "(export-default (fndecl * <>[]))".into()),
            28 => ("export default async function * q1 ( ) { }".into(), "(export-default (fndecl async * q1<>[]))".into()),
            _ => ("export async function * q1 ( ) { }".into(), "(export (fndecl async * q1<>[]))".into()),
        };
        let t = t.replace(", , ", ", ");
        let mut tt = toks(&t);
        restrict(&mut tt);
        if let Some(l) = tt.last_mut() {
            if l.t == ";" {
                l.asi = 1;
            }
        }
        let mut parts = vec![];
        let mut all = vec![];
        let before = r.pc(40);
        if before {
            all.extend(toks("zz ( ) ;"));
            parts.push("(expr (call (id zz)<>))".to_string());
        }
        all.extend(toks("var v1 , v2 , v3 ;"));
        parts.push("(var ((id v1)) ((id v2)) ((id v3)))".to_string());
        all.extend(tt);
        parts.push(s);
        let (at, as_) = [("w1 ;", "(expr (id w1))"), ("{ }", "(block [])"), ("function ff ( ) { }", "(fndecl ff<>[])"), ("'s' ;", "(expr (str 's'))"), ("let u1 ;", "(let ((id u1)))"), ("", ""), ("import 'z' ;", "(import (str 'z'))"), (";", "(empty)")][r.n(8)];
        if !at.is_empty() {
            all.extend(toks(at));
            parts.push(as_.to_string());
        }
        let st = style(r);
        if exact(o, r, &st, &all, true, &parts)? {
            o.feat(&format!("form.{:02}", k));
        }
        Ok(())
    });
    cases(cfg, o, "programs", cfg.n(30_000, 800_000), |o, r, i| {
        let mut p = Prof::default();
        p.impexp_pc = 80;
        p.items = 8;
        p.names_pc = if i % 2 == 0 { 25 } else { 6 };
        let st = style(r);
        gen_case(o, r, p, &st, Some(true))
    });
    // the same items in a script, and nested in anything in a module, are errors
    cases(cfg, o, "misplaced", cfg.n(20_000, 300_000), |o, r, i| {
        let module = i % 2 == 0;
        let mut g = Gen::new(Rng::new(r.next(), "mi", 0), prof_small());
        let x = if r.pc(40) { g.import(&Ctx::module()) } else { g.export(&Ctx::module(), 2) };
        if x.t.len() > 1 && x.t[0].t == "import" && x.t[1].t == "(" {
            return Ok(());
        }
        let depth = if module { 1 + r.n(3) } else { r.n(3) };
        let mut h = Hole::chain(r, depth, module, false);
        while module && h.names.is_empty() {
            h = Hole::chain(r, 1, module, false);
        }
        let st = style(r);
        let mut t = h.pre.clone();
        if r.pc(50) {
            t.extend(toks("zz ( ) ;"));
        }
        t.extend(x.t.iter().cloned());
        t.extend(h.post.iter().cloned());
        let tx = render(&t, r, &st, false);
        if !crate::oracle::lexes(&tx) {
            o.skipped += 1;
            return Ok(());
        }
        let got = crate::oracle::parse(&tx.text, module);
        if let Some(e) = &got.panic {
            return Err(bug(format!("panic: {}", e), &tx.text, ""));
        }
        if got.ok() {
            return Err(bug(format!("{} accepted {}", x.t[0].t, if module { "in a nested position" } else { "in a script" }), &tx.text, got.parts.join(" ")));
        }
        o.feat(if module { "misplaced.nested" } else { "misplaced.script" });
        o.seen(&tx.text, true);
        Ok(())
    });
    let mut must: Vec<String> = (0..30).map(|k| format!("form.{:02}", k)).collect();
    must.extend(
        ["import.bare", "import.default", "import.namespace", "import.named", "import.default+named", "import.default+namespace", "import.as", "export.all", "export.names-from", "export.names", "export.var", "export.let", "export.const", "export.function", "export.async-function", "export.class", "export.default-expr", "export.default-function", "export.default-class", "export.default-async", "misplaced.nested", "misplaced.script"]
            .iter()
            .map(|s| s.to_string()),
    );
    let must: Vec<&str> = must.iter().map(|s| s.as_str()).collect();
    rep("a case counts when a module with import/export declarations was parsed and every part equals the specification; distinct by text", &must, 10_000)
}
