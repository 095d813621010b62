//! Normal form shared with `oracle/norm.mjs`: a resast tree is flattened to an
//! s-expression in which cover-grammar encodings (arrow parameters kept as
//! expressions, assignment targets kept as expressions) are written the way ESTree
//! writes them, so two independent parsers can be compared text for text.
use resast::expr::*;
use resast::pat::*;
use resast::prelude::*;

pub struct W {
    pub s: String,
}

pub fn part(p: &ProgramPart) -> String {
    let mut w = W { s: String::new() };
    w.part(p);
    w.s
}

fn kind(k: VariableKind) -> &'static str {
    match k {
        VariableKind::Var => "var",
        VariableKind::Let => "let",
        VariableKind::Const => "const",
    }
}

impl W {
    fn p(&mut self, s: &str) {
        self.s.push_str(s);
    }
    fn id(&mut self, s: &str) {
        self.p("(id ");
        self.p(s);
        self.p(")");
    }
    fn parts(&mut self, ps: &[ProgramPart]) {
        self.p("[");
        for p in ps {
            self.part(p);
        }
        self.p("]");
    }
    pub fn part(&mut self, p: &ProgramPart) {
        match p {
            ProgramPart::Dir(d) => {
                self.p("(dir ");
                if let Literal::String(q) = &d.expr {
                    if q.len() < 2 || q[1..q.len() - 1] != *d.dir {
                        self.p("BADDIR");
                    }
                }
                self.lit(&d.expr);
                self.p(")");
            }
            ProgramPart::Decl(d) => {
                if let Decl::Variable(VariableKind::Var, _) = d {
                    self.p("DECLVAR");
                }
                self.decl(d)
            }
            ProgramPart::Stmt(s) => self.stmt(s),
        }
    }
    fn decl(&mut self, d: &Decl) {
        match d {
            Decl::Variable(k, ds) => self.vars(*k, ds),
            Decl::Function(f) => self.func("(fndecl", f),
            Decl::Class(c) => self.class("(classdecl ", c),
            Decl::Import(i) => {
                self.p("(import ");
                for s in &i.specifiers {
                    match s {
                        ImportSpecifier::Normal(a, b) => {
                            self.p("(n ");
                            self.p(a);
                            if let Some(b) = b {
                                self.p(" ");
                                self.p(b);
                            }
                            self.p(")");
                        }
                        ImportSpecifier::Default(a) => {
                            self.p("(d ");
                            self.p(a);
                            self.p(")");
                        }
                        ImportSpecifier::Namespace(a) => {
                            self.p("(* ");
                            self.p(a);
                            self.p(")");
                        }
                    }
                }
                self.lit(&i.source);
                self.p(")");
            }
            Decl::Export(e) => match &**e {
                ModExport::All(l) => {
                    self.p("(export-all ");
                    self.lit(l);
                    self.p(")");
                }
                ModExport::Default(d) => {
                    self.p("(export-default ");
                    match d {
                        DefaultExportDecl::Decl(d) => self.decl(d),
                        DefaultExportDecl::Expr(e) => self.expr(e),
                    }
                    self.p(")");
                }
                ModExport::Named(NamedExportDecl::Decl(d)) => {
                    self.p("(export ");
                    self.decl(d);
                    self.p(")");
                }
                ModExport::Named(NamedExportDecl::Specifier(ss, src)) => {
                    self.p("(export-names ");
                    for s in ss {
                        self.p("(");
                        self.p(&s.local);
                        if let Some(b) = &s.exported {
                            self.p(" ");
                            self.p(b);
                        }
                        self.p(")");
                    }
                    if let Some(s) = src {
                        self.lit(s);
                    }
                    self.p(")");
                }
            },
        }
    }
    fn vars(&mut self, k: VariableKind, ds: &[VariableDecl]) {
        self.p("(");
        self.p(kind(k));
        for d in ds {
            self.p(" (");
            self.pat(&d.id);
            if let Some(i) = &d.init {
                self.p(" = ");
                self.expr(i);
            }
            self.p(")");
        }
        self.p(")");
    }
    fn stmt(&mut self, s: &Stmt) {
        match s {
            Stmt::Expr(e) => {
                self.p("(expr ");
                self.expr(e);
                self.p(")");
            }
            Stmt::Block(b) => {
                self.p("(block ");
                self.parts(b);
                self.p(")");
            }
            Stmt::Empty => self.p("(empty)"),
            Stmt::Debugger => self.p("(debugger)"),
            Stmt::With(x) => {
                self.p("(with ");
                self.expr(&x.object);
                self.stmt(&x.body);
                self.p(")");
            }
            Stmt::Return(e) => {
                self.p("(return ");
                self.opt(e);
                self.p(")");
            }
            Stmt::Labeled(l) => {
                self.p("(label ");
                self.p(&l.label);
                self.stmt(&l.body);
                self.p(")");
            }
            Stmt::Break(l) => {
                self.p("(break ");
                self.p(l.as_ref().map(|s| s.as_str()).unwrap_or(""));
                self.p(")");
            }
            Stmt::Continue(l) => {
                self.p("(continue ");
                self.p(l.as_ref().map(|s| s.as_str()).unwrap_or(""));
                self.p(")");
            }
            Stmt::If(i) => {
                self.p("(if ");
                self.expr(&i.test);
                self.stmt(&i.consequent);
                if let Some(a) = &i.alternate {
                    self.p(" else ");
                    self.stmt(a);
                }
                self.p(")");
            }
            Stmt::Switch(s) => {
                self.p("(switch ");
                self.expr(&s.discriminant);
                for c in &s.cases {
                    self.p("(case ");
                    self.opt(&c.test);
                    self.parts(&c.consequent);
                    self.p(")");
                }
                self.p(")");
            }
            Stmt::Throw(e) => {
                self.p("(throw ");
                self.expr(e);
                self.p(")");
            }
            Stmt::Try(t) => {
                self.p("(try ");
                self.parts(&t.block);
                if let Some(h) = &t.handler {
                    self.p("(catch ");
                    if let Some(p) = &h.param {
                        self.pat(p);
                    }
                    self.parts(&h.body);
                    self.p(")");
                }
                if let Some(f) = &t.finalizer {
                    self.p("(finally ");
                    self.parts(f);
                    self.p(")");
                }
                self.p(")");
            }
            Stmt::While(x) => {
                self.p("(while ");
                self.expr(&x.test);
                self.stmt(&x.body);
                self.p(")");
            }
            Stmt::DoWhile(x) => {
                self.p("(do ");
                self.stmt(&x.body);
                self.expr(&x.test);
                self.p(")");
            }
            Stmt::For(f) => {
                self.p("(for ");
                match &f.init {
                    None => self.p("_"),
                    Some(LoopInit::Variable(k, ds)) => self.vars(*k, ds),
                    Some(LoopInit::Expr(e)) => self.expr(e),
                }
                self.p(";");
                self.opt(&f.test);
                self.p(";");
                self.opt(&f.update);
                self.stmt(&f.body);
                self.p(")");
            }
            Stmt::ForIn(f) => {
                self.p("(forin ");
                self.left(&f.left);
                self.expr(&f.right);
                self.stmt(&f.body);
                self.p(")");
            }
            Stmt::ForOf(f) => {
                self.p(if f.is_await { "(forawait " } else { "(forof " });
                self.left(&f.left);
                self.expr(&f.right);
                self.stmt(&f.body);
                self.p(")");
            }
            Stmt::Var(ds) => self.vars(VariableKind::Var, ds),
        }
    }
    fn left(&mut self, l: &LoopLeft) {
        match l {
            LoopLeft::Expr(e) => self.epat(e),
            LoopLeft::Variable(k, d) => self.vars(*k, std::slice::from_ref(d)),
            LoopLeft::Pat(p) => self.pat(p),
        }
    }
    fn opt(&mut self, e: &Option<Expr>) {
        match e {
            Some(e) => self.expr(e),
            None => self.p("_"),
        }
    }
    fn lit(&mut self, l: &Literal) {
        match l {
            Literal::Null => self.p("(null)"),
            Literal::String(s) => {
                self.p("(str ");
                self.p(s);
                self.p(")");
            }
            Literal::Number(s) => {
                self.p("(num ");
                self.p(s);
                self.p(")");
            }
            Literal::Boolean(b) => self.p(if *b { "(bool true)" } else { "(bool false)" }),
            Literal::RegEx(r) => {
                self.p("(re ");
                self.p(&r.pattern);
                self.p(" ");
                self.p(&r.flags);
                self.p(")");
            }
            Literal::Template(t) => self.tpl(t),
        }
    }
    fn tpl(&mut self, t: &TemplateLiteral) {
        self.p("(tpl");
        for (i, q) in t.quasis.iter().enumerate() {
            self.p(" {");
            let r = &q.raw;
            if !r.starts_with(if i == 0 { '`' } else { '}' })
                || !r.ends_with(if q.tail { "`" } else { "${" })
                || q.tail != (i + 1 == t.quasis.len())
            {
                self.p("BADQUASI");
            }
            let inner = if r.len() >= 2 {
                if q.tail {
                    &r[1..r.len() - 1]
                } else if r.len() >= 3 {
                    &r[1..r.len() - 2]
                } else {
                    "BADRAW"
                }
            } else {
                "BADRAW"
            };
            self.p(inner);
            if inner != q.cooked {
                self.p("BADCOOKED");
            }
            self.p(if q.tail { "}t" } else { "}" });
        }
        for e in &t.expressions {
            self.p(" ");
            self.expr(e);
        }
        self.p(")");
    }
    fn func(&mut self, tag: &str, f: &Function) {
        self.p(tag);
        if f.is_async {
            self.p(" async");
        }
        if f.generator {
            self.p(" *");
        }
        self.p(" ");
        if let Some(i) = &f.id {
            self.p(i);
        }
        self.params(&f.params);
        self.parts(&f.body);
        self.p(")");
    }
    fn params(&mut self, ps: &[FunctionArg]) {
        self.p("<");
        for p in ps {
            match p {
                FunctionArg::Expr(e) => self.epat(e),
                FunctionArg::Pat(p) => self.pat(p),
            }
        }
        self.p(">");
    }
    fn class(&mut self, tag: &str, c: &Class) {
        self.p(tag);
        if let Some(i) = &c.id {
            self.p(i);
        }
        if let Some(s) = &c.super_class {
            self.p(" extends ");
            self.expr(s);
        }
        for m in &c.body {
            self.p("(");
            self.p(match m.kind {
                PropertyKind::Get => "get ",
                PropertyKind::Set => "set ",
                PropertyKind::Ctor => "ctor ",
                PropertyKind::Method => "method ",
                PropertyKind::Init => "INIT ",
            });
            if m.short_hand {
                self.p("SHORT ");
            }
            self.key(&m.key, m.computed);
            match &m.value {
                PropertyValue::Expr(e) => self.expr(e),
                PropertyValue::Pat(p) => self.pat(p),
                PropertyValue::None => self.p("NONE"),
            }
            self.p(")");
        }
        self.p(")");
    }
    fn key(&mut self, k: &PropertyKey, computed: bool) {
        if computed {
            self.p("[");
        }
        match k {
            PropertyKey::Literal(l) => self.lit(l),
            PropertyKey::Expr(e) => self.expr(e),
            PropertyKey::Pat(p) => self.pat(p),
        }
        if computed {
            self.p("]");
        }
    }
    fn prop(&mut self, p: &Property) {
        self.p("(");
        self.p(match p.kind {
            PropertyKind::Get => "get ",
            PropertyKind::Set => "set ",
            PropertyKind::Init => "init ",
            PropertyKind::Ctor => "CTOR ",
            PropertyKind::Method => "METHOD ",
        });
        if p.method {
            self.p("method ");
        }
        if p.short_hand {
            self.p("short ");
        }
        self.key(&p.key, p.computed);
        match &p.value {
            PropertyValue::Expr(e) => {
                if p.short_hand {
                    self.p("COVERINIT");
                }
                self.expr(e)
            }
            PropertyValue::Pat(p) => self.pat(p),
            PropertyValue::None => {}
        }
        self.p(")");
    }
    fn patprop(&mut self, p: &Property) {
        self.p("(p ");
        if p.short_hand {
            self.p("short ");
        }
        self.key(&p.key, p.computed);
        match &p.value {
            PropertyValue::Expr(e) => {
                if p.short_hand {
                    self.p("(def ");
                    self.key(&p.key, false);
                    self.expr(e);
                    self.p(")");
                } else {
                    self.epat(e)
                }
            }
            PropertyValue::Pat(p) => self.pat(p),
            PropertyValue::None => self.key(&p.key, false),
        }
        self.p(")");
    }
    fn pat(&mut self, p: &Pat) {
        match p {
            Pat::Identifier(i) => self.id(i),
            Pat::Object(ps) => {
                self.p("(objpat");
                for p in ps {
                    match p {
                        ObjectPatPart::Assignment(p) => self.patprop(p),
                        ObjectPatPart::Rest(p) => match &**p {
                            Pat::RestElement(_) => self.pat(p),
                            q => {
                                self.p("(rest ");
                                self.pat(q);
                                self.p(")");
                            }
                        },
                    }
                }
                self.p(")");
            }
            Pat::Array(es) => {
                self.p("(arrpat");
                for e in es {
                    match e {
                        None => self.p(" _"),
                        Some(ArrayPatPart::Pat(p)) => {
                            self.p(" ");
                            self.pat(p)
                        }
                        Some(ArrayPatPart::Expr(e)) => {
                            self.p(" ");
                            self.epat(e)
                        }
                    }
                }
                self.p(")");
            }
            Pat::RestElement(p) => {
                self.p("(rest ");
                self.pat(p);
                self.p(")");
            }
            Pat::Assignment(a) => {
                self.p("(def ");
                self.pat(&a.left);
                self.expr(&a.right);
                self.p(")");
            }
        }
    }
    /// an expression in pattern position
    fn epat(&mut self, e: &Expr) {
        match e {
            Expr::Object(ps) => {
                self.p("(objpat");
                for p in ps {
                    match p {
                        ObjectProperty::Property(p) => self.patprop(p),
                        ObjectProperty::Spread(e) => match &**e {
                            Expr::Spread(_) => self.epat(e),
                            e => {
                                self.p("(rest ");
                                self.epat(e);
                                self.p(")");
                            }
                        },
                    }
                }
                self.p(")");
            }
            Expr::Array(es) => {
                self.p("(arrpat");
                for e in es {
                    self.p(" ");
                    match e {
                        None => self.p("_"),
                        Some(e) => self.epat(e),
                    }
                }
                self.p(")");
            }
            Expr::Spread(e) => {
                self.p("(rest ");
                self.epat(e);
                self.p(")");
            }
            Expr::Assignment(a) if a.operator == AssignmentOperator::Equal => {
                self.p("(def ");
                self.aleft(&a.left, true);
                self.expr(&a.right);
                self.p(")");
            }
            e => self.expr(e),
        }
    }
    fn aleft(&mut self, l: &AssignmentLeft, pat: bool) {
        match l {
            AssignmentLeft::Pat(p) => self.pat(p),
            AssignmentLeft::Expr(e) => {
                if pat {
                    self.epat(e)
                } else {
                    self.expr(e)
                }
            }
        }
    }
    pub fn expr(&mut self, e: &Expr) {
        match e {
            Expr::Array(es) => {
                self.p("(arr");
                for e in es {
                    self.p(" ");
                    match e {
                        None => self.p("_"),
                        Some(e) => self.expr(e),
                    }
                }
                self.p(")");
            }
            Expr::ArrowFunction(f) => {
                self.p("(arrow");
                if f.is_async {
                    self.p(" async");
                }
                if f.generator || f.id.is_some() {
                    self.p(" BADARROW");
                }
                self.params(&f.params);
                match &f.body {
                    ArrowFunctionBody::FunctionBody(b) => {
                        if f.expression {
                            self.p("BADARROW");
                        }
                        self.parts(b)
                    }
                    ArrowFunctionBody::Expr(e) => {
                        if !f.expression {
                            self.p("BADARROW");
                        }
                        self.expr(e)
                    }
                }
                self.p(")");
            }
            Expr::ArrowParamPlaceHolder(ps, _) => {
                self.p("(PLACEHOLDER ");
                self.params(ps);
                self.p(")");
            }
            Expr::Assignment(a) => {
                self.p("(");
                self.p(match a.operator {
                    AssignmentOperator::Equal => "=",
                    AssignmentOperator::PlusEqual => "+=",
                    AssignmentOperator::MinusEqual => "-=",
                    AssignmentOperator::TimesEqual => "*=",
                    AssignmentOperator::DivEqual => "/=",
                    AssignmentOperator::ModEqual => "%=",
                    AssignmentOperator::LeftShiftEqual => "<<=",
                    AssignmentOperator::RightShiftEqual => ">>=",
                    AssignmentOperator::UnsignedRightShiftEqual => ">>>=",
                    AssignmentOperator::OrEqual => "|=",
                    AssignmentOperator::XOrEqual => "^=",
                    AssignmentOperator::AndEqual => "&=",
                    AssignmentOperator::PowerOfEqual => "**=",
                });
                self.p(" ");
                self.aleft(&a.left, a.operator == AssignmentOperator::Equal);
                self.expr(&a.right);
                self.p(")");
            }
            Expr::Await(e) => {
                self.p("(await ");
                self.expr(e);
                self.p(")");
            }
            Expr::Binary(b) => {
                self.p("(");
                self.p(binop(b.operator));
                self.p(" ");
                self.expr(&b.left);
                self.expr(&b.right);
                self.p(")");
            }
            Expr::Logical(b) => {
                self.p(match b.operator {
                    LogicalOperator::And => "(&& ",
                    LogicalOperator::Or => "(|| ",
                });
                self.expr(&b.left);
                self.expr(&b.right);
                self.p(")");
            }
            Expr::Class(c) => self.class("(class ", c),
            Expr::Call(c) => {
                self.p("(call ");
                self.expr(&c.callee);
                self.p("<");
                for a in &c.arguments {
                    self.expr(a);
                }
                self.p(">)");
            }
            Expr::New(c) => {
                self.p("(new ");
                self.expr(&c.callee);
                self.p("<");
                for a in &c.arguments {
                    self.expr(a);
                }
                self.p(">)");
            }
            Expr::Conditional(c) => {
                self.p("(? ");
                self.expr(&c.test);
                self.expr(&c.consequent);
                self.expr(&c.alternate);
                self.p(")");
            }
            Expr::Function(f) => self.func("(fn", f),
            Expr::Ident(i) => self.id(i),
            Expr::Literal(l) => self.lit(l),
            Expr::Member(m) => {
                self.p("(. ");
                self.expr(&m.object);
                if m.computed {
                    self.p("[");
                }
                self.expr(&m.property);
                if m.computed {
                    self.p("]");
                }
                self.p(")");
            }
            Expr::MetaProperty(m) => {
                self.p("(meta ");
                self.p(&m.meta);
                self.p(".");
                self.p(&m.property);
                self.p(")");
            }
            Expr::Object(ps) => {
                self.p("(obj");
                for p in ps {
                    match p {
                        ObjectProperty::Property(p) => self.prop(p),
                        ObjectProperty::Spread(e) => self.expr(e),
                    }
                }
                self.p(")");
            }
            Expr::Sequence(es) => {
                self.p("(seq ");
                for e in es {
                    self.expr(e);
                }
                self.p(")");
            }
            Expr::Spread(e) => {
                self.p("(spread ");
                self.expr(e);
                self.p(")");
            }
            Expr::Super => self.p("(super)"),
            Expr::This => self.p("(this)"),
            Expr::TaggedTemplate(t) => {
                self.p("(tag ");
                self.expr(&t.tag);
                self.tpl(&t.quasi);
                self.p(")");
            }
            Expr::Unary(u) => {
                self.p("(u");
                self.p(unop(u.operator));
                if !u.prefix {
                    self.p("BADPREFIX");
                }
                self.p(" ");
                self.expr(&u.argument);
                self.p(")");
            }
            Expr::Update(u) => {
                let o = match u.operator {
                    UpdateOperator::Increment => "++",
                    UpdateOperator::Decrement => "--",
                };
                self.p("(");
                self.p(if u.prefix { "pre" } else { "post" });
                self.p(o);
                self.expr(&u.argument);
                self.p(")");
            }
            Expr::Yield(y) => {
                self.p(if y.delegate { "(yield* " } else { "(yield " });
                if let Some(a) = &y.argument {
                    self.expr(a);
                }
                self.p(")");
            }
        }
    }
}

pub fn unop(o: UnaryOperator) -> &'static str {
    match o {
        UnaryOperator::Minus => "-",
        UnaryOperator::Plus => "+",
        UnaryOperator::Not => "!",
        UnaryOperator::Tilde => "~",
        UnaryOperator::TypeOf => "typeof",
        UnaryOperator::Void => "void",
        UnaryOperator::Delete => "delete",
    }
}

pub fn binop(o: BinaryOperator) -> &'static str {
    match o {
        BinaryOperator::Equal => "==",
        BinaryOperator::NotEqual => "!=",
        BinaryOperator::StrictEqual => "===",
        BinaryOperator::StrictNotEqual => "!==",
        BinaryOperator::LessThan => "<",
        BinaryOperator::GreaterThan => ">",
        BinaryOperator::LessThanEqual => "<=",
        BinaryOperator::GreaterThanEqual => ">=",
        BinaryOperator::LeftShift => "<<",
        BinaryOperator::RightShift => ">>",
        BinaryOperator::UnsignedRightShift => ">>>",
        BinaryOperator::Plus => "+",
        BinaryOperator::Minus => "-",
        BinaryOperator::Times => "*",
        BinaryOperator::Over => "/",
        BinaryOperator::Mod => "%",
        BinaryOperator::Or => "|",
        BinaryOperator::XOr => "^",
        BinaryOperator::And => "&",
        BinaryOperator::In => "in",
        BinaryOperator::InstanceOf => "instanceof",
        BinaryOperator::PowerOf => "**",
    }
}
