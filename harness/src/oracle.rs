//! Running the real parser under observation, and the independent token / position oracles.
use crate::run::{arm, bug, Bug};
use crate::sexp;
use crate::tok::{Text, Tok};
use resast::prelude::*;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct Got {
    /// s-expression of every part, in order
    pub parts: Vec<String>,
    pub err: Option<E>,
    pub panic: Option<String>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct E {
    pub kind: &'static str,
    pub pos: Option<(usize, usize)>,
    pub msg: String,
    pub display: String,
}
pub fn err(e: &ressa::Error) -> E {
    use ressa::Error::*;
    let (kind, pos, msg) = match e {
        UnexpectedToken(p, m) => ("UnexpectedToken", Some(*p), m.clone()),
        UnexpectedEoF => ("UnexpectedEoF", None, String::new()),
        ParseAfterEoF => ("ParseAfterEoF", None, String::new()),
        UnableToReinterpret(p, a, b) => ("UnableToReinterpret", Some(*p), format!("{}>{}", a, b)),
        Redecl(p, m) => ("Redecl", Some(*p), m.clone()),
        OperationError(p, m) => ("OperationError", Some(*p), m.clone()),
        InvalidGetterParams(p) => ("InvalidGetterParams", Some(*p), String::new()),
        InvalidSetterParams(p) => ("InvalidSetterParams", Some(*p), String::new()),
        NonStrictFeatureInStrictContext(p, m) => ("NonStrict", Some(*p), m.clone()),
        _ => ("Other", None, String::new()),
    };
    E { kind, pos: pos.map(|p| (p.line, p.column)), msg, display: e.to_string() }
}

pub fn parse_opt(text: &str, module: bool, tolerant: bool) -> Got {
    arm(text);
    let mut parts = vec![];
    let mut e = None;
    let r = catch_unwind(AssertUnwindSafe(|| {
        let p = ressa::Builder::new().module(module).tolerant(tolerant).js(text).build();
        match p {
            Err(x) => e = Some(err(&x)),
            Ok(p) => {
                for x in p {
                    match x {
                        Ok(x) => parts.push(sexp::part(&x)),
                        Err(x) => {
                            e = Some(err(&x));
                            break;
                        }
                    }
                    if parts.len() > text.len() + 2 {
                        e = Some(E { kind: "ENDLESS", pos: None, msg: String::new(), display: "more parts than characters".into() });
                        break;
                    }
                }
            }
        }
    }));
    let panic = r.err().map(|x| crate::run::panic_text(&x));
    Got { parts, err: e, panic }
}
pub fn parse(text: &str, module: bool) -> Got {
    parse_opt(text, module, false)
}
impl Got {
    pub fn ok(&self) -> bool {
        self.err.is_none() && self.panic.is_none()
    }
    pub fn show(&self) -> String {
        match (&self.panic, &self.err) {
            (Some(p), _) => format!("PANIC {}", p),
            (_, Some(e)) => format!("ERROR {}", e.display),
            _ => format!("OK {}", self.parts.join(" ")),
        }
    }
}

/// The tokenizer crate on its own must see exactly the intended tokens and comments:
/// what it gets wrong is not the parser's doing and such a case is not counted.
pub fn lexes(t: &Text) -> bool {
    let txt = t.text.clone();
    let r = catch_unwind(move || {
        let mut v = vec![];
        let mut c = vec![];
        for i in ress::refs::RefScanner::new(txt) {
            if i.token.is_eof() {
                continue;
            }
            if i.token.is_comment() {
                c.push((i.span.start, i.span.end));
            } else {
                v.push((i.span.start, i.span.end));
            }
        }
        (v, c)
    });
    match r {
        Err(_) => false,
        Ok((v, c)) => {
            v.len() == t.spans.len()
                && c.len() == t.comments.len()
                && v.iter().zip(&t.spans).all(|(a, b)| a.0 == b.0 && a.1 == b.1)
                && c.iter().zip(&t.comments).all(|(a, b)| a.0 == b.start && a.1 == b.end)
        }
    }
}
pub struct RawTok {
    pub start: usize,
    pub end: usize,
    pub dbg: String,
    pub comment: bool,
    pub eof: bool,
    pub template: bool,
}
/// the plain token stream of the tokenizer crate, None when it panics
pub fn scan(text: &str) -> Option<Vec<RawTok>> {
    let txt = text.to_string();
    catch_unwind(move || {
        ress::refs::RefScanner::new(txt)
            .map(|i| RawTok {
                start: i.span.start,
                end: i.span.end,
                dbg: format!("{:?}", i.token),
                comment: i.token.is_comment(),
                eof: i.token.is_eof(),
                template: i.is_template(),
            })
            .collect()
    })
    .ok()
}

/// compare against the specification
pub fn expect(text: &str, module: bool, parts: &[String]) -> Result<Got, Bug> {
    let g = parse(text, module);
    same(text, &g, parts)?;
    Ok(g)
}
pub fn same(text: &str, g: &Got, parts: &[String]) -> Result<(), Bug> {
    if let Some(p) = &g.panic {
        return Err(bug(format!("panic on a valid program: {}", p), text, ""));
    }
    if let Some(e) = &g.err {
        return Err(bug(format!("valid program rejected: {}", e.display), text, parts.join("\n")));
    }
    if g.parts != parts {
        let k = (0..parts.len().max(g.parts.len())).find(|k| g.parts.get(*k) != parts.get(*k)).unwrap();
        let none = "(nothing)".to_string();
        return Err(bug(
            format!("wrong tree for part {}", k),
            text,
            format!("expected {}\ngot      {}", parts.get(k).unwrap_or(&none), g.parts.get(k).unwrap_or(&none)),
        ));
    }
    Ok(())
}

/// line/column of a byte offset by the ECMAScript line terminators: independent of the parser
pub struct Lines {
    starts: Vec<usize>,
}
impl Lines {
    pub fn new(text: &str) -> Lines {
        let mut starts = vec![0];
        let cs: Vec<(usize, char)> = text.char_indices().collect();
        let mut i = 0;
        while i < cs.len() {
            let (o, c) = cs[i];
            match c {
                '\r' => {
                    if i + 1 < cs.len() && cs[i + 1].1 == '\n' {
                        i += 1;
                        starts.push(o + 2);
                    } else {
                        starts.push(o + 1);
                    }
                }
                '\n' | '\u{2028}' | '\u{2029}' => starts.push(o + c.len_utf8()),
                _ => {}
            }
            i += 1;
        }
        Lines { starts }
    }
    pub fn at(&self, off: usize) -> (usize, usize) {
        let mut l = 0;
        for (i, s) in self.starts.iter().enumerate() {
            if *s <= off {
                l = i;
            } else {
                break;
            }
        }
        (l + 1, off - self.starts[l])
    }
    pub fn offset(&self, line: usize, col: usize) -> Option<usize> {
        if line == 0 {
            return None;
        }
        self.starts.get(line - 1).map(|s| s + col)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Com {
    pub start: usize,
    pub end: usize,
    pub kind: char,
    pub text: String,
}
/// iterate with a comment handler; `after[i]` = number of comments delivered when part i arrived
pub fn parse_comments(text: &str, module: bool) -> (Got, Vec<Com>, Vec<usize>) {
    arm(text);
    let log: Rc<RefCell<Vec<Com>>> = Rc::new(RefCell::new(vec![]));
    let mut parts = vec![];
    let mut after = vec![];
    let mut e = None;
    let l2 = log.clone();
    let r = catch_unwind(AssertUnwindSafe(|| {
        let h = move |i: ress::Item| {
            let (kind, s) = match &i.token {
                ress::tokens::Token::Comment(c) => (
                    match c.kind {
                        ress::CommentKind::Multi => '*',
                        ress::CommentKind::Single => '/',
                        ress::CommentKind::Html => '<',
                    },
                    c.content.clone(),
                ),
                t => ('?', format!("{:?}", t)),
            };
            l2.borrow_mut().push(Com { start: i.span.start, end: i.span.end, kind, text: s });
        };
        match ressa::Builder::new().module(module).js(text).with_comment_handler(h) {
            Err(x) => e = Some(err(&x)),
            Ok(p) => {
                for x in p {
                    match x {
                        Ok(x) => {
                            parts.push(sexp::part(&x));
                            after.push(log.borrow().len());
                        }
                        Err(x) => {
                            e = Some(err(&x));
                            break;
                        }
                    }
                }
            }
        }
    }));
    let panic = r.err().map(|x| crate::run::panic_text(&x));
    let v = log.borrow().clone();
    (Got { parts, err: e, panic }, v, after)
}

/// `parse()` of the whole program: (is module, parts)
pub fn program(p: &Program) -> (bool, Vec<String>) {
    match p {
        Program::Mod(v) => (true, v.iter().map(sexp::part).collect()),
        Program::Script(v) => (false, v.iter().map(sexp::part).collect()),
    }
}

/// tokens written one after another with single blanks
pub fn plain(toks: &[Tok]) -> String {
    let mut s = String::new();
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            s.push(' ');
        }
        s.push_str(&t.t);
    }
    s
}

// ---------------------------------------------------------------- the reference parser
#[derive(Clone, Debug)]
pub enum Ref {
    Accept(Vec<String>),
    /// message and byte offset
    Reject(String, usize),
}
/// Ask acorn (vendored) about every text, in parallel.
pub fn reference(root: &str, tmp: &str, texts: &[(String, bool)]) -> Result<Vec<Ref>, String> {
    let _ = ROOT.set(root.to_string());
    let k = crate::run::WORKERS.min(texts.len().max(1));
    let per = (texts.len() + k - 1) / k;
    let mut kids = vec![];
    for (i, ch) in texts.chunks(per.max(1)).enumerate() {
        let fi = format!("{}/ref{}.in", tmp, i);
        let fo = format!("{}/ref{}.out", tmp, i);
        let mut s = String::new();
        for (t, m) in ch {
            s.push(if *m { 'm' } else { 's' });
            for b in t.bytes() {
                s.push_str(&format!("{:02x}", b));
            }
            s.push('\n');
        }
        std::fs::write(&fi, s).map_err(|e| e.to_string())?;
        let c = std::process::Command::new("node")
            .arg("--stack-size=4000")
            .arg(format!("{}/oracle/serve.mjs", root))
            .arg(&fi)
            .arg(&fo)
            .spawn()
            .map_err(|e| format!("node: {}", e))?;
        kids.push((c, fo, fi, ch.len()));
    }
    let mut out = vec![];
    for (mut c, fo, fi, n) in kids {
        let st = c.wait().map_err(|e| e.to_string())?;
        if !st.success() {
            return Err(format!("reference parser failed: {}", st));
        }
        let s = std::fs::read_to_string(&fo).map_err(|e| e.to_string())?;
        let mut m = 0;
        for l in s.split('\n') {
            if l.is_empty() {
                continue;
            }
            m += 1;
            let un = |h: &str| -> String {
                let b: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap_or(b'?')).collect();
                String::from_utf8_lossy(&b).into_owned()
            };
            let f: Vec<&str> = l.split('\t').collect();
            if f[0] == "O" {
                let s = un(f[1]);
                out.push(Ref::Accept(if s.is_empty() { vec![] } else { s.split('\u{1}').map(|x| x.to_string()).collect() }));
            } else {
                out.push(Ref::Reject(un(f[1]), f.get(2).and_then(|x| x.parse().ok()).unwrap_or(0)));
            }
        }
        if m != n {
            return Err("reference parser: missing answers".into());
        }
        let _ = std::fs::remove_file(fi);
        let _ = std::fs::remove_file(fo);
    }
    Ok(out)
}

static ROOT: std::sync::OnceLock<String> = std::sync::OnceLock::new();
/// A second opinion on a text that the reference parser accepts: the engine of node.
pub fn rejected_by_engine(text: &str, module: bool) -> bool {
    use std::io::Write;
    use std::process::{Command, Stdio};
    let root = match ROOT.get() {
        Some(r) => r,
        None => return false,
    };
    let kid = Command::new("node")
        .args(["--stack-size=4000", "--experimental-vm-modules", "--no-warnings"])
        .arg(format!("{}/oracle/second.mjs", root))
        .arg(if module { "m" } else { "s" })
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn();
    let mut kid = match kid {
        Ok(k) => k,
        Err(_) => return false,
    };
    if let Some(mut i) = kid.stdin.take() {
        let _ = i.write_all(text.as_bytes());
    }
    match kid.wait_with_output() {
        Ok(o) => o.stdout.starts_with(b"reject"),
        Err(_) => false,
    }
}
