//! A recursion over programs that knows what encloses each place: strictness, functions, loops and
//! labels. The models of the jump rules and of the strict mode rules are written on top of it.
use easter::decl::{ConstDtor, Decl, Dtor};
use easter::expr::{Expr, ExprListItem};
use easter::fun::Params;
use easter::id::Id;
use easter::obj::{Prop, PropVal};
use easter::patt::{AssignTarget, CompoundPatt, Patt, PropPatt};
use easter::stmt::{Block, ForHead, ForInHead, ForOfHead, Script, Stmt, StmtListItem};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Role {
    /// bound by var, a parameter, catch or a function's name
    Bind,
    /// bound by let or const
    Lexical,
    /// read or assigned
    Ref,
    /// a label or what a jump names
    Label,
}

#[derive(Clone)]
pub struct Cx {
    pub strict: bool,
    /// name or parameter of a function that is strict only by its own directive
    pub reach_back: bool,
    pub function: bool,
    pub generator: bool,
    pub iteration: bool,
    pub switch: bool,
    pub labels: Vec<(String, bool)>,
}

/// What is met, in source order.
pub enum At<'a> {
    Id(&'a mut Id, Role),
    With,
    /// before its parts are looked at, so that it may be replaced
    Stmt(&'a mut Stmt),
    Break(Option<String>),
    Cont(Option<String>),
    Return,
    Label(String),
}

pub struct Scope<F: FnMut(At, &Cx)> {
    pub cx: Cx,
    pub f: F,
}

fn is_use_strict(b: &Script) -> bool {
    b.dirs.iter().any(|d| match d.string.source {
        Some(ref s) => s == "'use strict'" || s == "\"use strict\"",
        None => d.string.value == "use strict",
    })
}

pub fn run<F: FnMut(At, &Cx)>(s: &mut Script, strict: bool, f: F) {
    let cx = Cx { strict, reach_back: false, function: false, generator: false, iteration: false, switch: false, labels: vec![] };
    Scope { cx, f }.body(s)
}

impl<F: FnMut(At, &Cx)> Scope<F> {
    fn id(&mut self, i: &mut Id, r: Role) {
        (self.f)(At::Id(i, r), &self.cx)
    }
    fn body(&mut self, b: &mut Script) {
        self.cx.strict |= is_use_strict(b);
        self.items(&mut b.items);
    }
    fn items(&mut self, v: &mut Vec<StmtListItem>) {
        for i in v.iter_mut() {
            match *i {
                StmtListItem::Stmt(ref mut s) => self.stmt(s),
                StmtListItem::Decl(ref mut d) => self.decl(d),
            }
        }
    }
    fn decl(&mut self, d: &mut Decl) {
        match *d {
            Decl::Fun(ref mut f) => {
                let saved = self.cx.reach_back;
                self.cx.reach_back |= !self.cx.strict && is_use_strict(&f.body);
                self.id(&mut f.id, Role::Bind);
                self.cx.reach_back = saved;
                self.fun(Some(&mut f.params), &mut f.body, f.generator);
            }
            Decl::Let(_, ref mut ds, _) => self.dtors(ds, Role::Lexical),
            Decl::Const(_, ref mut ds, _) => self.const_dtors(ds),
        }
    }
    fn dtors(&mut self, ds: &mut Vec<Dtor>, r: Role) {
        for d in ds.iter_mut() {
            match *d {
                Dtor::Simple(_, ref mut i, ref mut e) => {
                    self.id(i, r);
                    if let Some(ref mut e) = *e {
                        self.expr(e);
                    }
                }
                Dtor::Compound(..) => {}
            }
        }
    }
    fn const_dtors(&mut self, ds: &mut Vec<ConstDtor>) {
        for d in ds.iter_mut() {
            self.bind(&mut d.patt, Role::Lexical);
            self.expr(&mut d.value);
        }
    }
    fn bind(&mut self, p: &mut Patt<Id>, r: Role) {
        if let Patt::Simple(ref mut i) = *p {
            self.id(i, r);
        }
    }
    fn fun(&mut self, p: Option<&mut Params>, b: &mut Script, generator: bool) {
        let outer = self.cx.clone();
        self.cx.reach_back |= !outer.strict && is_use_strict(b);
        self.cx.generator = generator;
        if let Some(p) = p {
            for x in p.list.iter_mut() {
                self.bind(x, Role::Bind);
            }
            if let Some(ref mut r) = p.rest {
                self.bind(&mut r.patt, Role::Bind);
            }
        }
        self.cx = Cx { strict: outer.strict, reach_back: outer.reach_back, function: true, generator, iteration: false, switch: false, labels: vec![] };
        self.body(b);
        self.cx = outer;
    }
    fn block(&mut self, b: &mut Block) {
        self.items(&mut b.items)
    }
    fn in_loop(&mut self, b: &mut Stmt) {
        let saved = self.cx.iteration;
        self.cx.iteration = true;
        self.stmt(b);
        self.cx.iteration = saved;
    }

    pub fn stmt(&mut self, s: &mut Stmt) {
        (self.f)(At::Stmt(s), &self.cx);
        match *s {
            Stmt::Empty(_) | Stmt::Debugger(..) => {}
            Stmt::Block(ref mut b) => self.block(b),
            Stmt::Var(_, ref mut ds, _) => self.dtors(ds, Role::Bind),
            Stmt::Expr(_, ref mut e, _) | Stmt::Throw(_, ref mut e, _) => self.expr(e),
            Stmt::If(_, ref mut e, ref mut a, ref mut b) => {
                self.expr(e);
                self.stmt(a);
                if let Some(ref mut b) = *b {
                    self.stmt(b);
                }
            }
            Stmt::Label(_, ref mut i, ref mut b) => {
                self.id(i, Role::Label);
                let n = i.name.as_ref().to_string();
                (self.f)(At::Label(n.clone()), &self.cx);
                self.cx.labels.push((n, labels_loop(b)));
                self.stmt(b);
                self.cx.labels.pop();
            }
            Stmt::Break(_, ref mut i, _) => {
                let n = i.as_ref().map(|i| i.name.as_ref().to_string());
                if let Some(ref mut i) = *i {
                    self.id(i, Role::Label);
                }
                (self.f)(At::Break(n), &self.cx);
            }
            Stmt::Cont(_, ref mut i, _) => {
                let n = i.as_ref().map(|i| i.name.as_ref().to_string());
                if let Some(ref mut i) = *i {
                    self.id(i, Role::Label);
                }
                (self.f)(At::Cont(n), &self.cx);
            }
            Stmt::With(_, ref mut e, ref mut b) => {
                (self.f)(At::With, &self.cx);
                self.expr(e);
                self.stmt(b);
            }
            Stmt::Switch(_, ref mut e, ref mut cs) => {
                self.expr(e);
                let saved = self.cx.switch;
                self.cx.switch = true;
                for c in cs.iter_mut() {
                    if let Some(ref mut t) = c.test {
                        self.expr(t);
                    }
                    self.items(&mut c.body);
                }
                self.cx.switch = saved;
            }
            Stmt::Return(_, ref mut e, _) => {
                if let Some(ref mut e) = *e {
                    self.expr(e);
                }
                (self.f)(At::Return, &self.cx);
            }
            Stmt::Try(_, ref mut b, ref mut c, ref mut f) => {
                self.block(b);
                if let Some(ref mut c) = *c {
                    self.bind(&mut c.param, Role::Bind);
                    self.block(&mut c.body);
                }
                if let Some(ref mut f) = *f {
                    self.block(f);
                }
            }
            Stmt::While(_, ref mut e, ref mut b) => {
                self.expr(e);
                self.in_loop(b);
            }
            Stmt::DoWhile(_, ref mut b, ref mut e, _) => {
                self.in_loop(b);
                self.expr(e);
            }
            Stmt::For(_, ref mut h, ref mut t, ref mut u, ref mut b) => {
                if let Some(ref mut h) = *h {
                    match **h {
                        ForHead::Var(_, ref mut ds) => self.dtors(ds, Role::Bind),
                        ForHead::Let(_, ref mut ds) => self.dtors(ds, Role::Lexical),
                        ForHead::Const(_, ref mut ds) => self.const_dtors(ds),
                        ForHead::Expr(_, ref mut e) => self.expr(e),
                    }
                }
                if let Some(ref mut t) = *t {
                    self.expr(t);
                }
                if let Some(ref mut u) = *u {
                    self.expr(u);
                }
                self.in_loop(b);
            }
            Stmt::ForIn(_, ref mut h, ref mut e, ref mut b) => {
                match **h {
                    ForInHead::VarInit(_, ref mut i, ref mut e) => {
                        self.id(i, Role::Bind);
                        self.expr(e);
                    }
                    ForInHead::Var(_, ref mut p) => self.bind(p, Role::Bind),
                    ForInHead::Let(_, ref mut p) | ForInHead::Const(_, ref mut p) => self.bind(p, Role::Lexical),
                    ForInHead::Patt(ref mut p) => self.patt(p),
                }
                self.expr(e);
                self.in_loop(b);
            }
            Stmt::ForOf(_, ref mut h, ref mut e, ref mut b) => {
                match **h {
                    ForOfHead::Var(_, ref mut p) => self.bind(p, Role::Bind),
                    ForOfHead::Let(_, ref mut p) | ForOfHead::Const(_, ref mut p) => self.bind(p, Role::Lexical),
                    ForOfHead::Patt(ref mut p) => self.patt(p),
                }
                self.expr(e);
                self.in_loop(b);
            }
        }
    }

    fn list(&mut self, v: &mut Vec<ExprListItem>) {
        for x in v.iter_mut() {
            match *x {
                ExprListItem::Expr(ref mut e) | ExprListItem::Spread(_, ref mut e) => self.expr(e),
            }
        }
    }
    fn target(&mut self, t: &mut AssignTarget) {
        match *t {
            AssignTarget::Id(ref mut i) => self.id(i, Role::Ref),
            AssignTarget::Dot(_, ref mut o, _) => self.expr(o),
            AssignTarget::Brack(_, ref mut o, ref mut k) => {
                self.expr(o);
                self.expr(k);
            }
        }
    }
    fn patt(&mut self, p: &mut Patt<AssignTarget>) {
        match *p {
            Patt::Simple(ref mut t) => self.target(t),
            Patt::Compound(CompoundPatt::Arr(_, ref mut ps, ref mut r)) => {
                for p in ps.iter_mut() {
                    if let Some(ref mut p) = *p {
                        self.patt(p);
                    }
                }
                if let Some(ref mut r) = *r {
                    self.patt(&mut r.patt);
                }
            }
            Patt::Compound(CompoundPatt::Obj(_, ref mut ps)) => {
                for p in ps.iter_mut() {
                    match *p {
                        PropPatt::Regular(_, _, ref mut p) => self.patt(p),
                        PropPatt::Shorthand(ref mut i) => self.id(i, Role::Ref),
                    }
                }
            }
        }
    }
    pub fn expr(&mut self, e: &mut Expr) {
        match *e {
            Expr::Id(ref mut i) => self.id(i, Role::Ref),
            Expr::Arr(_, ref mut v) => {
                for x in v.iter_mut() {
                    if let Some(ExprListItem::Expr(ref mut e)) | Some(ExprListItem::Spread(_, ref mut e)) = *x {
                        self.expr(e);
                    }
                }
            }
            Expr::Obj(_, ref mut ps) => {
                for p in ps.iter_mut() {
                    match *p {
                        Prop::Regular(_, _, PropVal::Init(ref mut e)) => self.expr(e),
                        Prop::Regular(_, _, PropVal::Get(_, ref mut b)) => self.fun(None, b, false),
                        Prop::Regular(_, _, PropVal::Set(_, ref mut p, ref mut b)) => {
                            let saved = self.cx.clone();
                            self.cx.reach_back |= !self.cx.strict && is_use_strict(b);
                            self.cx.generator = false;
                            self.bind(p, Role::Bind);
                            self.cx = saved;
                            self.fun(None, b, false);
                        }
                        Prop::Method(ref mut f) => self.fun(Some(&mut f.params), &mut f.body, f.generator),
                        Prop::Shorthand(ref mut i) => self.id(i, Role::Ref),
                    }
                }
            }
            Expr::Fun(ref mut f) => {
                let saved = self.cx.clone();
                self.cx.reach_back |= !self.cx.strict && is_use_strict(&f.body);
                self.cx.generator = f.generator;
                if let Some(ref mut i) = f.id {
                    self.id(i, Role::Bind);
                }
                self.cx = saved;
                self.fun(Some(&mut f.params), &mut f.body, f.generator);
            }
            Expr::Seq(_, ref mut es) => {
                for e in es.iter_mut() {
                    self.expr(e);
                }
            }
            Expr::Unop(_, _, ref mut a) => self.expr(a),
            Expr::Binop(_, _, ref mut a, ref mut b) => {
                self.expr(a);
                self.expr(b);
            }
            Expr::Logop(_, _, ref mut a, ref mut b) => {
                self.expr(a);
                self.expr(b);
            }
            Expr::PreInc(_, ref mut t) | Expr::PreDec(_, ref mut t) | Expr::PostInc(_, ref mut t) | Expr::PostDec(_, ref mut t) => self.target(t),
            Expr::Assign(_, ref mut p, ref mut e) => {
                self.patt(p);
                self.expr(e);
            }
            Expr::BinAssign(_, _, ref mut t, ref mut e) => {
                self.target(t);
                self.expr(e);
            }
            Expr::Cond(_, ref mut a, ref mut b, ref mut c) => {
                self.expr(a);
                self.expr(b);
                self.expr(c);
            }
            Expr::Call(_, ref mut f, ref mut a) => {
                self.expr(f);
                self.list(a);
            }
            Expr::New(_, ref mut f, ref mut a) => {
                self.expr(f);
                if let Some(ref mut a) = *a {
                    self.list(a);
                }
            }
            Expr::Dot(_, ref mut o, _) => self.expr(o),
            Expr::Brack(_, ref mut o, ref mut k) => {
                self.expr(o);
                self.expr(k);
            }
            Expr::This(_) | Expr::NewTarget(_) | Expr::True(_) | Expr::False(_) | Expr::Null(_) | Expr::Number(..) | Expr::RegExp(..) | Expr::String(..) => {}
        }
    }
}

fn labels_loop(s: &Stmt) -> bool {
    match *s {
        Stmt::While(..) | Stmt::DoWhile(..) | Stmt::For(..) | Stmt::ForIn(..) | Stmt::ForOf(..) => true,
        Stmt::Label(_, _, ref b) => labels_loop(b),
        _ => false,
    }
}

/// The first breach of the jump rules, if any, in source order.
pub fn jump_breach(s: &mut Script) -> Option<String> {
    let mut bad: Option<String> = None;
    run(s, false, |at, cx| {
        let b = match at {
            At::Break(None) if !cx.iteration && !cx.switch => "break outside a loop or switch".to_string(),
            At::Cont(None) if !cx.iteration => "continue outside a loop".to_string(),
            At::Break(Some(ref n)) if !cx.labels.iter().any(|l| l.0 == *n) => format!("break {} without such a label", n),
            At::Cont(Some(ref n)) if !cx.labels.iter().any(|l| l.0 == *n && l.1) => format!("continue {} without such a loop", n),
            At::Label(ref n) if cx.labels.iter().any(|l| l.0 == *n) => format!("label {} inside itself", n),
            At::Return if !cx.function => "return outside a function".to_string(),
            _ => return,
        };
        bad.get_or_insert(b);
    });
    bad
}

pub static STRICT_WORDS: &[&str] = &["implements", "interface", "let", "package", "private", "protected", "public", "static", "yield"];

pub enum Breach {
    No,
    Yes(String),
    /// only the claim's open cases: names and parameters of a function made strict by its own body
    Open,
}

/// The first breach of the strict mode rules in a program.
pub fn strict_breach(s: &mut Script, strict: bool, module: bool) -> Breach {
    let mut bad = Breach::No;
    let mut open = false;
    run(s, strict, |at, cx| {
        if let Breach::Yes(_) = bad {
            return;
        }
        match at {
            At::With if cx.strict => bad = Breach::Yes("with".to_string()),
            At::Id(i, r) => {
                let n = i.name.as_ref();
                let word = STRICT_WORDS.contains(&n) || ((r == Role::Bind || r == Role::Lexical) && (n == "eval" || n == "arguments"));
                if word && cx.strict || module && n == "await" {
                    bad = Breach::Yes(format!("{} as {:?}", n, r));
                } else if word && cx.reach_back {
                    open = true;
                }
            }
            _ => {}
        }
    });
    match bad {
        Breach::No if open => Breach::Open,
        b => b,
    }
}
