//! Cases shared by several checks: generated programs against their specified trees.
use crate::gen::*;
use crate::hole::Hole;
use crate::oracle::*;
use crate::rng::Rng;
use crate::run::*;
use crate::tok::*;

pub const LOOSE: Style = Style { nl: 12, cm: 0, elide: 50, tight: 60, exotic: false };
pub const WILD: Style = Style { nl: 15, cm: 12, elide: 60, tight: 50, exotic: true };
pub const TIGHT: Style = Style { nl: 0, cm: 0, elide: 30, tight: 100, exotic: false };

pub fn style(r: &mut Rng) -> Style {
    match r.n(5) {
        0 | 1 => PLAIN,
        2 => LOOSE,
        3 => TIGHT,
        _ => WILD,
    }
}

/// tokens of the chosen parts, without blaming a part for what an earlier one declared
fn some_parts(p: &Prog, keep: &dyn Fn(usize) -> bool) -> (Vec<Tok>, Vec<String>) {
    let mut t = vec![];
    let mut s = vec![];
    for i in 0..p.parts.len() {
        if keep(i) {
            t.extend_from_slice(&p.toks[p.bounds[i]..p.bounds[i + 1]]);
            s.push(p.parts[i].clone());
        }
    }
    (t, s)
}

/// a failing program reduced to a failing part, when one part fails by itself
pub fn smaller(p: &Prog, b: Bug) -> Bug {
    let dirs = p.parts.iter().take_while(|x| x.starts_with("(dir ")).count();
    let mut r = Rng::new(1, "smaller", 0);
    for i in dirs..p.parts.len() {
        let (t, s) = some_parts(p, &|k| k < dirs || k == i);
        let tx = render(&t, &mut r, &PLAIN, false);
        if !lexes(&tx) {
            continue;
        }
        if let Err(b2) = expect(&tx.text, p.module, &s) {
            return b2;
        }
    }
    b
}

pub fn note(o: &mut Obs, g: &Gen) {
    for (k, v) in &g.feats {
        o.add(k, *v);
    }
    for p in &g.pairs {
        o.pairs.insert(*p as u32);
    }
    o.maxf("nodes", g.nodes as f64);
    o.maxf("depth", g.max_depth as f64);
}

/// One generated program in one layout must parse to exactly its specified parts.
pub fn gen_case(o: &mut Obs, r: &mut Rng, prof: Prof, st: &Style, module: Option<bool>) -> Result<(), Bug> {
    let mut g = Gen::new(Rng::new(r.next(), "g", 0), prof);
    let p = match module {
        None => g.program(),
        Some(m) => g.program_as(m),
    };
    let tx = render(&p.toks, r, st, !p.module);
    if !lexes(&tx) {
        o.skipped += 1;
        return Ok(());
    }
    if let Err(b) = expect(&tx.text, p.module, &p.parts) {
        return Err(smaller(&p, b));
    }
    note(o, &g);
    o.add("semicolons.left.out", tx.elided as u64);
    o.add("comments", tx.comments.len() as u64);
    o.add("line.terminators", tx.newlines as u64);
    o.feat(if p.module { "program.module" } else { "program.script" });
    o.seen(&tx.text, g.nodes > 5);
    Ok(())
}

/// A known token sequence with a known tree, in some layout. None when the tokenizer
/// does not see these tokens (outside the domain).
pub fn exact(o: &mut Obs, r: &mut Rng, st: &Style, toks: &[Tok], module: bool, parts: &[String]) -> Result<bool, Bug> {
    let tx = render(toks, r, st, !module);
    if !lexes(&tx) {
        o.skipped += 1;
        return Ok(false);
    }
    expect(&tx.text, module, parts)?;
    o.seen(&tx.text, true);
    Ok(true)
}

/// fill a hole with tokens of a known meaning
pub fn in_hole(o: &mut Obs, r: &mut Rng, st: &Style, h: &Hole, inner: &[Tok], sx: &str) -> Result<bool, Bug> {
    let done = exact(o, r, st, &h.fill(inner), h.ctx.module, &[h.sx(sx)])?;
    if done {
        for n in &h.names {
            o.feat(&format!("in.{}", n));
        }
    }
    Ok(done)
}

pub fn prof_small() -> Prof {
    let mut p = Prof::default();
    p.items = 2;
    p.fuel = 25;
    p
}
