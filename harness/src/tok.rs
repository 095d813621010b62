//! Tokens of generated programs, and their rendering to text with controlled trivia.
use crate::rng::Rng;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum K {
    Word,
    Num,
    Str,
    Re,
    TplHead,
    TplMid,
    TplTail,
    TplFull,
    Punct,
}

#[derive(Clone, Debug)]
pub struct Tok {
    pub t: String,
    pub k: K,
    /// a line terminator may not come before this token
    pub no_nl: bool,
    /// 0: must be written; 1: automatic semicolon; 2: semicolon of do-while (never needed)
    pub asi: u8,
}

pub fn w(s: &str) -> Tok {
    Tok { t: s.into(), k: K::Word, no_nl: false, asi: 0 }
}
pub fn p(s: &str) -> Tok {
    Tok { t: s.into(), k: K::Punct, no_nl: false, asi: 0 }
}
pub fn tk(s: &str, k: K) -> Tok {
    Tok { t: s.into(), k, no_nl: false, asi: 0 }
}
impl Tok {
    pub fn nn(mut self) -> Tok {
        self.no_nl = true;
        self
    }
    pub fn asi(mut self, a: u8) -> Tok {
        self.asi = a;
        self
    }
}

const PUNCTS: &[&str] = &[
    "{", "}", "(", ")", ".", ";", ",", "[", "]", ":", "?", "~", ">", "<", "=", "!", "+", "-", "*", "/", "&", "|", "%",
    "^", "...", ">>", ">>>", "<<", "=>", "==", "===", "!=", "!==", "<=", ">=", "++", "--", "**", "&&", "||", "+=",
    "-=", "*=", "/=", "%=", "**=", "<<=", ">>=", ">>>=", "&=", "|=", "^=", "//", "/*", "<!--", "-->", "<!", "<!-", "#",
    "..", "??", "?.",
];

fn wordish(k: K) -> bool {
    matches!(k, K::Word | K::Num)
}

/// must these two tokens be separated by trivia to stay two tokens
pub fn need_space(a: &Tok, b: &Tok) -> bool {
    if wordish(a.k) && wordish(b.k) {
        return true;
    }
    if a.k == K::Num && b.t.starts_with('.') {
        return true;
    }
    if a.k == K::Re && (wordish(b.k)) {
        return true;
    }
    if a.t.ends_with('.') && b.k == K::Num {
        return true;
    }
    let pa = a.k == K::Punct;
    let pb = b.k == K::Punct || b.k == K::Re;
    if pa && pb {
        let cat = format!("{}{}", a.t, b.t);
        for r in PUNCTS {
            if r.len() > a.t.len() && cat.starts_with(r) {
                return true;
            }
        }
        // a+ +b handled above; also keep "<" away from "!" and "--" away from ">"
        if a.t.ends_with('<') && b.t.starts_with('!') {
            return true;
        }
        if a.t.ends_with("--") && b.t.starts_with('>') {
            return true;
        }
    }
    if a.k == K::Re && b.k == K::Punct && false {
        return true;
    }
    false
}

/// can the semicolon between these two tokens be left out when a new line is there
fn elide_with_newline(prev: &Tok, next: &Tok) -> bool {
    if prev.t == "let" && prev.k == K::Word {
        return false;
    }
    match next.k {
        K::Word => {
            !(next.t == "in" || next.t == "instanceof" || next.t == "of" || next.t == "as"
                || (next.t == "from" && prev.t == "}"))
        }
        K::Num | K::Str => true,
        K::Re | K::TplFull | K::TplHead | K::TplMid | K::TplTail => false,
        K::Punct => matches!(next.t.as_str(), "{" | "~" | "!" | "++" | "--"),
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Style {
    /// percent of gaps with an optional line terminator
    pub nl: u32,
    /// percent of gaps with a comment
    pub cm: u32,
    /// percent of optional semicolons left out
    pub elide: u32,
    /// percent of gaps without any trivia when that is possible
    pub tight: u32,
    /// use exotic white space and line terminators
    pub exotic: bool,
}
pub const PLAIN: Style = Style { nl: 0, cm: 0, elide: 0, tight: 0, exotic: false };

pub struct Comment {
    pub start: usize,
    pub end: usize,
    pub kind: u8, // b'/' single, b'*' multi, b'<' html
}

pub struct Text {
    pub text: String,
    /// (start, end, index into the token list)
    pub spans: Vec<(usize, usize, usize)>,
    pub comments: Vec<Comment>,
    pub elided: usize,
    pub newlines: usize,
}

const WS: &[&str] = &[" ", "\t", "  ", "\u{b}", "\u{c}", "\u{a0}", "\u{feff}", "\u{2003}", "\u{3000}"];
const LT: &[&str] = &["\n", "\r\n", "\r", "\u{2028}", "\u{2029}"];
const CM: &[&str] = &[
    "", " c ", "a*b", "**", " 'q ", " \"q ", " `t ", "/ / ", " é ", "日本", "😀", " if (x) {", " } ) ]", "// x", " <!-- ", "-->",
    " = => ++ ; ", "\\", "\\u0041", " let it: be ", "use strict", "@todo x",
];

fn ws(r: &mut Rng, s: &Style) -> &'static str {
    if s.exotic && r.pc(30) {
        WS[r.n(WS.len())]
    } else {
        WS[r.n(2)]
    }
}
fn lt(r: &mut Rng, s: &Style) -> &'static str {
    if s.exotic && r.pc(60) {
        LT[r.n(LT.len())]
    } else {
        "\n"
    }
}

impl Text {
    fn comment(&mut self, r: &mut Rng, s: &Style, nl_ok: bool, html: bool) {
        let start = self.text.len();
        let body = CM[r.n(CM.len())];
        let what = if nl_ok { r.n(5) } else { 0 };
        match what {
            // a block comment on one line
            0 | 1 => {
                let b = body.replace("*/", "* /");
                self.text.push_str("/*");
                self.text.push_str(&b);
                if r.pc(20) {
                    self.text.push_str(&b);
                }
                self.text.push_str("*/");
                self.comments.push(Comment { start, end: self.text.len(), kind: b'*' });
            }
            // a block comment over several lines
            2 => {
                self.text.push_str("/*");
                self.text.push_str(&body.replace("*/", ""));
                for _ in 0..1 + r.n(2) {
                    let l = lt(r, s);
                    self.text.push_str(l);
                    self.newlines += 1;
                    self.text.push_str(&CM[r.n(CM.len())].replace("*/", ""));
                }
                self.text.push_str("*/");
                self.comments.push(Comment { start, end: self.text.len(), kind: b'*' });
            }
            _ => {
                let k = if html && r.pc(15) { "<!--" } else { "//" };
                self.text.push_str(k);
                self.text.push_str(if k == "<!--" { " h -->" } else { body });
                self.comments.push(Comment { start, end: self.text.len(), kind: if k == "//" { b'/' } else { b'<' } });
                let l = lt(r, s);
                self.text.push_str(l);
                self.newlines += 1;
            }
        }
    }
    fn gap(&mut self, r: &mut Rng, s: &Style, need: bool, nl_ok: bool, force_nl: bool, html: bool) {
        let mut any = false;
        if force_nl {
            // trivia around a new line
            if r.pc(s.cm) {
                self.text.push(' ');
                self.comment(r, s, true, html);
            } else {
                let l = lt(r, s);
                self.text.push_str(l);
                self.newlines += 1;
            }
            // a block comment on one line is no new line by itself
            if !self.text.ends_with(|c| matches!(c, '\n' | '\r' | '\u{2028}' | '\u{2029}')) {
                let l = lt(r, s);
                self.text.push_str(l);
                self.newlines += 1;
            }
            any = true;
        }
        if r.pc(s.cm) {
            if !any && (self.text.ends_with(|c| matches!(c, '/' | '<')) || r.pc(60)) {
                let x = ws(r, s);
                self.text.push_str(x);
            }
            for _ in 0..1 + (r.pc(25) as usize) {
                self.comment(r, s, nl_ok, html);
            }
            any = true;
        }
        if nl_ok && r.pc(s.nl) {
            let l = lt(r, s);
            self.text.push_str(l);
            self.newlines += 1;
            any = true;
        }
        if (!any && need) || !r.pc(s.tight) {
            let x = ws(r, s);
            self.text.push_str(x);
        }
    }
}

/// Lay the tokens out as text. `elidable(i)` semicolons may be dropped.
pub fn render(toks: &[Tok], r: &mut Rng, s: &Style, html: bool) -> Text {
    let mut t = Text { text: String::new(), spans: vec![], comments: vec![], elided: 0, newlines: 0 };
    let plain = s.cm == 0 && s.nl == 0 && s.elide == 0 && s.tight == 0;
    let mut prev: Option<&Tok> = None;
    let mut force = false;
    let mut i = 0;
    if !plain && r.pc(s.cm.max(5)) {
        t.gap(r, s, false, true, false, html);
    }
    while i < toks.len() {
        let k = &toks[i];
        if k.asi > 0 && r.pc(s.elide) {
            let next = toks.get(i + 1);
            let (ok, nl) = match next {
                None => (true, false),
                Some(n) if n.t == "}" && n.k == K::Punct => (true, false),
                Some(_) if k.asi == 2 => (true, false),
                Some(n) => match prev {
                    Some(pv) => (elide_with_newline(pv, n), true),
                    None => (false, false),
                },
            };
            // a semicolon that would end the wrong thing: keep it before another semicolon
            let next_semi = next.map(|n| n.t == ";" && n.k == K::Punct).unwrap_or(false);
            if ok && !next_semi {
                t.elided += 1;
                force = nl;
                i += 1;
                continue;
            }
        }
        if let Some(pv) = prev {
            let need = need_space(pv, k);
            if plain {
                t.text.push(' ');
            } else {
                t.gap(r, s, need, !k.no_nl, force, html);
            }
        }
        force = false;
        let st = t.text.len();
        t.text.push_str(&k.t);
        t.spans.push((st, t.text.len(), i));
        prev = Some(k);
        i += 1;
    }
    if !plain {
        if r.pc(30) {
            t.text.push_str(lt(r, s));
            t.newlines += 1;
        }
        if r.pc(s.cm) {
            t.comment(r, s, true, html);
        }
        if r.pc(20) {
            let x = ws(r, s);
            t.text.push_str(x);
        }
    }
    t
}
