//! ESTree documents: an encoder from syntax trees, written from the ESTree specification, and a
//! description of the well-formed documents of the supported language, with their normal form.
use crate::ast;
use crate::engine::Src;
use crate::tok;
use easter::decl::{Decl, Dtor};
use easter::expr::{Expr, ExprListItem};
use easter::fun::{Fun, Params};
use easter::id::Id;
use easter::obj::{Prop, PropKey, PropVal};
use easter::patt::{AssignTarget, CompoundPatt, Patt, PropPatt};
use easter::stmt::{Block, Case, Catch, Dir, ForHead, ForInHead, ForOfHead, Script, Stmt, StmtListItem};
use joker::token::{NumberLiteral, RegExpLiteral};
use joker::word::Name;
use serde_json::value::Value;
use std::collections::BTreeMap;

pub type Obj = BTreeMap<String, Value>;

pub fn s(t: &str) -> Value {
    Value::String(t.to_string())
}

/// How much of the freedom ESTree leaves is used.
pub struct Enc<'s> {
    pub src: Option<&'s mut Src>,
    /// locations, ranges and other fields the decoder does not know
    pub extras: bool,
    pub nodes: usize,
    /// patterns as the nodes ESTree has for them, which the decoder does not know
    pub patterns: bool,
    pub pattern_nodes: usize,
    /// mark directives by their source text
    pub directives: bool,
}

fn name_of(n: &Name) -> String {
    // the spelling of a name, reserved or not
    tok::name_text(n)
}

impl<'s> Enc<'s> {
    pub fn plain() -> Enc<'static> {
        Enc { src: None, extras: false, nodes: 0, patterns: false, pattern_nodes: 0, directives: false }
    }
    pub fn free(src: &'s mut Src, extras: bool) -> Enc<'s> {
        Enc { src: Some(src), extras, nodes: 0, patterns: false, pattern_nodes: 0, directives: false }
    }

    fn choose(&mut self, n: u64) -> u64 {
        match self.src {
            Some(ref mut src) => src.below(n),
            None => 0,
        }
    }

    fn node(&mut self, tag: &str, fields: Vec<(&str, Value)>) -> Value {
        self.nodes += 1;
        let mut o = Obj::new();
        o.insert("type".to_string(), s(tag));
        for (k, v) in fields {
            o.insert(k.to_string(), v);
        }
        if self.extras {
            self.extra(tag, &mut o);
        }
        Value::Object(o)
    }

    fn extra(&mut self, tag: &str, o: &mut Obj) {
        let mut add = |k: &str, v: Value| {
            if !o.contains_key(k) {
                o.insert(k.to_string(), v);
            }
        };
        loop {
            match self.choose(12) {
                0 | 1 | 2 | 3 | 4 => return,
                5 => add("start", Value::U64(3)),
                6 => add("range", Value::Array(vec![Value::U64(0), Value::U64(7)])),
                7 => {
                    let mut l = Obj::new();
                    let mut p = Obj::new();
                    p.insert("line".to_string(), Value::U64(1));
                    p.insert("column".to_string(), Value::U64(0));
                    l.insert("start".to_string(), Value::Object(p.clone()));
                    l.insert("end".to_string(), Value::Object(p));
                    add("loc", Value::Object(l));
                }
                8 => add("leadingComments", Value::Array(vec![])),
                9 => match tag {
                    "Literal" => add("raw", s("0")),
                    "Program" => add("sourceType", s("script")),
                    "ExpressionStatement" => add("directive", s("use strict")),
                    "UnaryExpression" => add("prefix", Value::Bool(true)),
                    "FunctionExpression" | "FunctionDeclaration" => add("expression", Value::Bool(false)),
                    _ => add("parent", Value::Null),
                },
                // names of fields that other nodes have
                10 => match tag {
                    "Literal" | "Identifier" | "ThisExpression" | "EmptyStatement" | "DebuggerStatement" => add("body", Value::Array(vec![])),
                    "BlockStatement" | "Program" => add("expression", s("type")),
                    _ => add("raw", Value::Bool(true)),
                },
                _ => add("\u{e9} extra", Value::F64(0.5)),
            }
        }
    }

    fn opt<T>(&mut self, o: &Option<T>, f: impl FnOnce(&mut Self, &T) -> Value) -> Value {
        match *o {
            Some(ref x) => f(self, x),
            None => Value::Null,
        }
    }
    fn list<T>(&mut self, l: &[T], f: impl Fn(&mut Self, &T) -> Value) -> Value {
        Value::Array(l.iter().map(|x| f(self, x)).collect())
    }

    fn ident(&mut self, name: &str) -> Value {
        self.node("Identifier", vec![("name", s(name))])
    }
    fn id(&mut self, id: &Id) -> Value {
        self.ident(&name_of(&id.name))
    }

    fn num_value(&mut self, v: f64) -> Value {
        let whole = v.fract() == 0.0 && !(v == 0.0 && v.is_sign_negative());
        match self.choose(3) {
            // what a reader of JSON text makes of a whole number
            0 if whole && v >= 0.0 && v < 18446744073709551616.0 => Value::U64(v as u64),
            1 if whole && v > -9223372036854775808.0 && v < 9223372036854775808.0 => Value::I64(v as i64),
            _ => Value::F64(v),
        }
    }
    fn num(&mut self, n: &NumberLiteral) -> Value {
        let v = self.num_value(n.value);
        self.node("Literal", vec![("value", v)])
    }
    fn regexp(&mut self, r: &RegExpLiteral) -> Value {
        let mut o = Obj::new();
        o.insert("pattern".to_string(), s(&r.pattern));
        o.insert("flags".to_string(), Value::String(r.flags.iter().cloned().collect()));
        let v = if self.choose(2) == 0 { Value::Null } else { Value::Object(Obj::new()) };
        self.node("Literal", vec![("value", v), ("regex", Value::Object(o))])
    }
    fn text(&mut self, t: &str) -> Value {
        self.node("Literal", vec![("value", s(t))])
    }

    fn bexpr(&mut self, e: &Expr) -> Value {
        self.expr(e)
    }

    pub fn expr(&mut self, e: &Expr) -> Value {
        match *e {
            Expr::This(_) => self.node("ThisExpression", vec![]),
            Expr::Id(ref id) => self.id(id),
            Expr::Arr(_, ref els) => {
                let els = self.list(els, |m, x| m.opt(x, |m, i| m.item(i)));
                self.node("ArrayExpression", vec![("elements", els)])
            }
            Expr::Obj(_, ref ps) => {
                let ps = self.list(ps, |m, p| m.prop(p));
                self.node("ObjectExpression", vec![("properties", ps)])
            }
            Expr::Fun(ref f) => {
                let id = self.opt(&f.id, |m, i| m.id(i));
                let rest = self.fun(f);
                self.fun_node("FunctionExpression", id, rest)
            }
            Expr::Seq(_, ref es) => {
                let es = self.list(es, |m, x| m.expr(x));
                self.node("SequenceExpression", vec![("expressions", es)])
            }
            Expr::Unop(_, ref o, ref a) => {
                let a = self.bexpr(a);
                self.node("UnaryExpression", vec![("operator", s(ast::unop_text(&o.tag))), ("argument", a)])
            }
            Expr::Binop(_, ref o, ref a, ref b) => {
                let (a, b) = (self.bexpr(a), self.bexpr(b));
                self.node("BinaryExpression", vec![("operator", s(ast::binop_text(&o.tag))), ("left", a), ("right", b)])
            }
            Expr::Logop(_, ref o, ref a, ref b) => {
                let (a, b) = (self.bexpr(a), self.bexpr(b));
                self.node("LogicalExpression", vec![("operator", s(ast::logop_text(&o.tag))), ("left", a), ("right", b)])
            }
            Expr::PreInc(_, ref t) => self.update("++", true, t),
            Expr::PostInc(_, ref t) => self.update("++", false, t),
            Expr::PreDec(_, ref t) => self.update("--", true, t),
            Expr::PostDec(_, ref t) => self.update("--", false, t),
            Expr::Assign(_, ref p, ref e) => {
                let (a, b) = (self.assign_patt(p), self.bexpr(e));
                self.node("AssignmentExpression", vec![("operator", s("=")), ("left", a), ("right", b)])
            }
            Expr::BinAssign(_, ref o, ref t, ref e) => {
                let (a, b) = (self.target(t), self.bexpr(e));
                self.node("AssignmentExpression", vec![("operator", s(ast::assop_text(&o.tag))), ("left", a), ("right", b)])
            }
            Expr::Cond(_, ref a, ref b, ref c) => {
                let (a, b, c) = (self.bexpr(a), self.bexpr(b), self.bexpr(c));
                self.node("ConditionalExpression", vec![("test", a), ("consequent", b), ("alternate", c)])
            }
            Expr::Call(_, ref f, ref args) => {
                let f = self.bexpr(f);
                let args = self.list(args, |m, i| m.item(i));
                self.node("CallExpression", vec![("callee", f), ("arguments", args)])
            }
            Expr::New(_, ref f, ref args) => {
                let f = self.bexpr(f);
                let args = match *args {
                    Some(ref args) => self.list(args, |m, i| m.item(i)),
                    None => Value::Array(vec![]),
                };
                self.node("NewExpression", vec![("callee", f), ("arguments", args)])
            }
            Expr::Dot(_, ref o, ref k) => self.dot(o, &k.value),
            Expr::Brack(_, ref o, ref k) => self.brack(o, k),
            Expr::NewTarget(_) => {
                let (a, b) = (self.ident("new"), self.ident("target"));
                self.node("MetaProperty", vec![("meta", a), ("property", b)])
            }
            Expr::True(_) => self.node("Literal", vec![("value", Value::Bool(true))]),
            Expr::False(_) => self.node("Literal", vec![("value", Value::Bool(false))]),
            Expr::Null(_) => self.node("Literal", vec![("value", Value::Null)]),
            Expr::Number(_, ref n) => self.num(n),
            Expr::RegExp(_, ref r) => self.regexp(r),
            Expr::String(_, ref t) => self.text(&t.value),
        }
    }
    fn dot(&mut self, o: &Expr, k: &str) -> Value {
        let (o, k) = (self.expr(o), self.ident(k));
        self.node("MemberExpression", vec![("object", o), ("property", k), ("computed", Value::Bool(false))])
    }
    fn brack(&mut self, o: &Expr, k: &Expr) -> Value {
        let (o, k) = (self.expr(o), self.expr(k));
        self.node("MemberExpression", vec![("object", o), ("property", k), ("computed", Value::Bool(true))])
    }
    fn update(&mut self, op: &str, prefix: bool, t: &AssignTarget) -> Value {
        let t = self.target(t);
        self.node("UpdateExpression", vec![("operator", s(op)), ("argument", t), ("prefix", Value::Bool(prefix))])
    }
    fn item(&mut self, i: &ExprListItem) -> Value {
        match *i {
            ExprListItem::Expr(ref e) => self.expr(e),
            ExprListItem::Spread(_, ref e) => {
                let e = self.expr(e);
                self.node("SpreadElement", vec![("argument", e)])
            }
        }
    }
    fn key(&mut self, k: &PropKey) -> Value {
        match *k {
            PropKey::Id(_, ref t) => self.ident(t),
            PropKey::String(_, ref t) => self.text(&t.value),
            PropKey::Number(_, ref n) => self.num(n),
        }
    }
    fn property(&mut self, key: Value, value: Value, kind: &str, method: bool, shorthand: bool) -> Value {
        self.node(
            "Property",
            vec![
                ("key", key),
                ("value", value),
                ("kind", s(kind)),
                ("method", Value::Bool(method)),
                ("shorthand", Value::Bool(shorthand)),
                ("computed", Value::Bool(false)),
            ],
        )
    }
    fn prop(&mut self, p: &Prop) -> Value {
        match *p {
            Prop::Regular(_, ref k, PropVal::Init(ref e)) => {
                let (k, e) = (self.key(k), self.expr(e));
                self.property(k, e, "init", false, false)
            }
            Prop::Regular(_, ref k, PropVal::Get(_, ref b)) => {
                let k = self.key(k);
                let b = self.fun_body(b);
                let f = self.fun_node("FunctionExpression", Value::Null, (Value::Array(vec![]), b, false));
                self.property(k, f, "get", false, false)
            }
            Prop::Regular(_, ref k, PropVal::Set(_, ref p, ref b)) => {
                let k = self.key(k);
                let p = self.bind_patt(p);
                let b = self.fun_body(b);
                let f = self.fun_node("FunctionExpression", Value::Null, (Value::Array(vec![p]), b, false));
                self.property(k, f, "set", false, false)
            }
            Prop::Method(ref f) => {
                let k = self.key(&f.id);
                let rest = self.fun(f);
                let f = self.fun_node("FunctionExpression", Value::Null, rest);
                self.property(k, f, "init", true, false)
            }
            Prop::Shorthand(ref id) => {
                let (k, v) = (self.id(id), self.id(id));
                self.property(k, v, "init", false, true)
            }
        }
    }

    fn params(&mut self, p: &Params) -> Value {
        let mut l: Vec<Value> = p.list.iter().map(|p| self.bind_patt(p)).collect();
        if let Some(ref r) = p.rest {
            let a = self.bind_patt(&r.patt);
            l.push(self.node("RestElement", vec![("argument", a)]));
        }
        Value::Array(l)
    }
    fn fun_body(&mut self, b: &Script) -> Value {
        let b = self.body(b);
        self.node("BlockStatement", vec![("body", b)])
    }
    fn fun<I>(&mut self, f: &Fun<I>) -> (Value, Value, bool) {
        let p = self.params(&f.params);
        let b = self.fun_body(&f.body);
        (p, b, f.generator)
    }
    fn fun_node(&mut self, tag: &str, id: Value, (params, body, generator): (Value, Value, bool)) -> Value {
        let g = if !generator && self.choose(4) == 3 { Value::Null } else { Value::Bool(generator) };
        self.node(tag, vec![("id", id), ("params", params), ("body", body), ("generator", g)])
    }

    fn target(&mut self, t: &AssignTarget) -> Value {
        match *t {
            AssignTarget::Id(ref id) => self.id(id),
            AssignTarget::Dot(_, ref o, ref k) => self.dot(o, &k.value),
            AssignTarget::Brack(_, ref o, ref k) => self.brack(o, k),
        }
    }
    fn bind_patt(&mut self, p: &Patt<Id>) -> Value {
        match *p {
            Patt::Simple(ref id) => self.id(id),
            Patt::Compound(ref p) => self.compound(p, true, |m, t| m.id(t)),
        }
    }
    fn assign_patt(&mut self, p: &Patt<AssignTarget>) -> Value {
        match *p {
            Patt::Simple(ref t) => self.target(t),
            Patt::Compound(ref p) => {
                let proper = self.patterns;
                self.compound(p, proper, |m, t| m.target(t))
            }
        }
    }
    fn sub_patt<T>(&mut self, p: &Patt<T>, proper: bool, f: fn(&mut Self, &T) -> Value) -> Value {
        match *p {
            Patt::Simple(ref t) => f(self, t),
            Patt::Compound(ref p) => self.compound(p, proper, f),
        }
    }
    /// Either as pattern nodes or in the older form, as the expressions they are written as.
    fn compound<T>(&mut self, p: &CompoundPatt<T>, proper: bool, f: fn(&mut Self, &T) -> Value) -> Value {
        if proper {
            self.pattern_nodes += 1;
        }
        match *p {
            CompoundPatt::Arr(_, ref ps, ref rest) => {
                let mut l: Vec<Value> = ps.iter().map(|p| self.opt(p, |m, p| m.sub_patt(p, proper, f))).collect();
                if let Some(ref r) = *rest {
                    let a = self.sub_patt(&r.patt, proper, f);
                    l.push(self.node(if proper { "RestElement" } else { "SpreadElement" }, vec![("argument", a)]));
                }
                self.node(if proper { "ArrayPattern" } else { "ArrayExpression" }, vec![("elements", Value::Array(l))])
            }
            CompoundPatt::Obj(_, ref ps) => {
                let l = self.list(ps, |m, p| match *p {
                    PropPatt::Regular(_, ref k, ref p) => {
                        let (k, p) = (m.key(k), m.sub_patt(p, proper, f));
                        m.property(k, p, "init", false, false)
                    }
                    PropPatt::Shorthand(ref id) => {
                        let (k, v) = (m.id(id), m.id(id));
                        m.property(k, v, "init", false, true)
                    }
                });
                self.node(if proper { "ObjectPattern" } else { "ObjectExpression" }, vec![("properties", l)])
            }
        }
    }

    fn dtor(&mut self, d: &Dtor) -> Value {
        match *d {
            Dtor::Simple(_, ref id, ref e) => {
                let id = self.id(id);
                let e = self.opt(e, |m, e| m.expr(e));
                self.node("VariableDeclarator", vec![("id", id), ("init", e)])
            }
            Dtor::Compound(_, ref p, ref e) => {
                let p = self.compound(p, true, |m, t| m.id(t));
                let e = self.expr(e);
                self.node("VariableDeclarator", vec![("id", p), ("init", e)])
            }
        }
    }
    fn decl(&mut self, kind: &str, dtors: Value) -> Value {
        self.node("VariableDeclaration", vec![("declarations", dtors), ("kind", s(kind))])
    }
    fn dtors(&mut self, kind: &str, ds: &[Dtor]) -> Value {
        let ds = self.list(ds, |m, d| m.dtor(d));
        self.decl(kind, ds)
    }
    fn consts(&mut self, ds: &[easter::decl::ConstDtor]) -> Value {
        let ds = self.list(ds, |m, d| {
            let (p, e) = (m.bind_patt(&d.patt), m.expr(&d.value));
            m.node("VariableDeclarator", vec![("id", p), ("init", e)])
        });
        self.decl("const", ds)
    }
    fn head_decl(&mut self, kind: &str, p: &Patt<Id>, init: Value) -> Value {
        let p = self.bind_patt(p);
        let d = self.node("VariableDeclarator", vec![("id", p), ("init", init)]);
        self.decl(kind, Value::Array(vec![d]))
    }

    fn block(&mut self, b: &Block) -> Value {
        let items = self.items(&b.items);
        self.node("BlockStatement", vec![("body", items)])
    }
    fn items(&mut self, items: &[StmtListItem]) -> Value {
        self.list(items, |m, i| m.stmt_item(i))
    }
    fn stmt_item(&mut self, i: &StmtListItem) -> Value {
        match *i {
            StmtListItem::Stmt(ref x) => self.stmt(x),
            StmtListItem::Decl(Decl::Fun(ref f)) => {
                let id = self.id(&f.id);
                let rest = self.fun(f);
                self.fun_node("FunctionDeclaration", id, rest)
            }
            StmtListItem::Decl(Decl::Let(_, ref ds, _)) => self.dtors("let", ds),
            StmtListItem::Decl(Decl::Const(_, ref ds, _)) => self.consts(ds),
        }
    }

    pub fn stmt(&mut self, x: &Stmt) -> Value {
        match *x {
            Stmt::Empty(_) => self.node("EmptyStatement", vec![]),
            Stmt::Block(ref b) => self.block(b),
            Stmt::Var(_, ref ds, _) => self.dtors("var", ds),
            Stmt::Expr(_, ref e, _) => {
                let e = self.expr(e);
                self.node("ExpressionStatement", vec![("expression", e)])
            }
            Stmt::If(_, ref t, ref c, ref a) => {
                let (t, c) = (self.expr(t), self.stmt(c));
                let a = self.opt(a, |m, a| m.stmt(a));
                self.node("IfStatement", vec![("test", t), ("consequent", c), ("alternate", a)])
            }
            Stmt::Label(_, ref l, ref b) => {
                let (l, b) = (self.id(l), self.stmt(b));
                self.node("LabeledStatement", vec![("label", l), ("body", b)])
            }
            Stmt::Break(_, ref l, _) => {
                let l = self.opt(l, |m, l| m.id(l));
                self.node("BreakStatement", vec![("label", l)])
            }
            Stmt::Cont(_, ref l, _) => {
                let l = self.opt(l, |m, l| m.id(l));
                self.node("ContinueStatement", vec![("label", l)])
            }
            Stmt::With(_, ref o, ref b) => {
                let (o, b) = (self.expr(o), self.stmt(b));
                self.node("WithStatement", vec![("object", o), ("body", b)])
            }
            Stmt::Switch(_, ref d, ref cs) => {
                let d = self.expr(d);
                let cs = self.list(cs, |m, c| m.case(c));
                self.node("SwitchStatement", vec![("discriminant", d), ("cases", cs)])
            }
            Stmt::Return(_, ref a, _) => {
                let a = self.opt(a, |m, a| m.expr(a));
                self.node("ReturnStatement", vec![("argument", a)])
            }
            Stmt::Throw(_, ref a, _) => {
                let a = self.expr(a);
                self.node("ThrowStatement", vec![("argument", a)])
            }
            Stmt::Try(_, ref b, ref c, ref f) => {
                let b = self.block(b);
                let c = self.opt(c, |m, c| m.catch(c));
                let f = self.opt(f, |m, f| m.block(f));
                self.node("TryStatement", vec![("block", b), ("handler", c), ("finalizer", f)])
            }
            Stmt::While(_, ref t, ref b) => {
                let (t, b) = (self.expr(t), self.stmt(b));
                self.node("WhileStatement", vec![("test", t), ("body", b)])
            }
            Stmt::DoWhile(_, ref b, ref t, _) => {
                let (b, t) = (self.stmt(b), self.expr(t));
                self.node("DoWhileStatement", vec![("body", b), ("test", t)])
            }
            Stmt::For(_, ref h, ref t, ref u, ref b) => {
                let h = self.opt(h, |m, h| match **h {
                    ForHead::Var(_, ref ds) => m.dtors("var", ds),
                    ForHead::Let(_, ref ds) => m.dtors("let", ds),
                    ForHead::Const(_, ref ds) => m.consts(ds),
                    ForHead::Expr(_, ref e) => m.expr(e),
                });
                let t = self.opt(t, |m, e| m.expr(e));
                let u = self.opt(u, |m, e| m.expr(e));
                let b = self.stmt(b);
                self.node("ForStatement", vec![("init", h), ("test", t), ("update", u), ("body", b)])
            }
            Stmt::ForIn(_, ref h, ref e, ref b) => {
                let h = match **h {
                    ForInHead::VarInit(_, ref id, ref e) => {
                        let e = self.expr(e);
                        self.head_decl("var", &Patt::Simple(id.clone()), e)
                    }
                    ForInHead::Var(_, ref p) => self.head_decl("var", p, Value::Null),
                    ForInHead::Let(_, ref p) => self.head_decl("let", p, Value::Null),
                    ForInHead::Const(_, ref p) => self.head_decl("const", p, Value::Null),
                    ForInHead::Patt(ref p) => self.assign_patt(p),
                };
                let (e, b) = (self.expr(e), self.stmt(b));
                self.node("ForInStatement", vec![("left", h), ("right", e), ("body", b)])
            }
            Stmt::ForOf(_, ref h, ref e, ref b) => {
                let h = match **h {
                    ForOfHead::Var(_, ref p) => self.head_decl("var", p, Value::Null),
                    ForOfHead::Let(_, ref p) => self.head_decl("let", p, Value::Null),
                    ForOfHead::Const(_, ref p) => self.head_decl("const", p, Value::Null),
                    ForOfHead::Patt(ref p) => self.assign_patt(p),
                };
                let (e, b) = (self.expr(e), self.stmt(b));
                self.node("ForOfStatement", vec![("left", h), ("right", e), ("body", b)])
            }
            Stmt::Debugger(_, _) => self.node("DebuggerStatement", vec![]),
        }
    }
    fn case(&mut self, c: &Case) -> Value {
        let t = self.opt(&c.test, |m, e| m.expr(e));
        let b = self.items(&c.body);
        self.node("SwitchCase", vec![("test", t), ("consequent", b)])
    }
    fn catch(&mut self, c: &Catch) -> Value {
        let (p, b) = (self.bind_patt(&c.param), self.block(&c.body));
        self.node("CatchClause", vec![("param", p), ("body", b)])
    }
    fn body(&mut self, b: &Script) -> Value {
        let mut l: Vec<Value> = b.dirs.iter().map(|d| self.dir(d)).collect();
        for i in &b.items {
            l.push(self.stmt_item(i));
        }
        Value::Array(l)
    }
    fn dir(&mut self, d: &Dir) -> Value {
        let e = self.text(&d.string.value);
        let mut fields = vec![("expression", e)];
        if self.directives {
            let source = d.string.source.clone().unwrap_or_default();
            let n = source.chars().count();
            fields.push(("directive", Value::String(source.chars().skip(1).take(n.saturating_sub(2)).collect())));
        }
        self.node("ExpressionStatement", fields)
    }
    pub fn script(&mut self, b: &Script) -> Value {
        let b = self.body(b);
        self.node("Program", vec![("body", b)])
    }
}

// ------------------------------------------------------------------ well-formed documents

/// What a place in a document may hold.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Program,
    Expr,
    Item,
    Ident,
    Target,
    Patt,
    /// a statement in a position where declarations may not stand
    Stmt,
    StmtItem,
    Block,
    Dtor,
    Const,
    Case,
    Catch,
    Prop,
    PropPatt,
    Key,
    /// a function as the value of a property, with any parameters, none, or one
    Method,
    Getter,
    Setter,
    ForHead,
    ForInHead,
    ForOfHead,
    InDtor(bool),
}
use self::Kind::*;

pub type Bad = String;
type Res = Result<Value, Bad>;

fn field<'a>(o: &'a Obj, tag: &str, k: &str) -> Result<&'a Value, Bad> {
    o.get(k).ok_or_else(|| format!("{} has no field {}", tag, k))
}
fn text<'a>(o: &'a Obj, tag: &str, k: &str) -> Result<&'a str, Bad> {
    match *field(o, tag, k)? {
        Value::String(ref t) => Ok(t),
        _ => Err(format!("{} of {} is not a string", k, tag)),
    }
}
fn flag(o: &Obj, tag: &str, k: &str) -> Result<bool, Bad> {
    match *field(o, tag, k)? {
        Value::Bool(b) => Ok(b),
        _ => Err(format!("{} of {} is not a boolean", k, tag)),
    }
}
fn array<'a>(o: &'a Obj, tag: &str, k: &str) -> Result<&'a Vec<Value>, Bad> {
    match *field(o, tag, k)? {
        Value::Array(ref a) => Ok(a),
        _ => Err(format!("{} of {} is not an array", k, tag)),
    }
}
fn tag_of(v: &Value) -> Result<(&Obj, &str), Bad> {
    match *v {
        Value::Object(ref o) => Ok((o, text(o, "node", "type")?)),
        _ => Err("a node is not an object".to_string()),
    }
}

struct Build {
    o: Obj,
}
impl Build {
    fn new(tag: &str) -> Build {
        let mut o = Obj::new();
        o.insert("type".to_string(), s(tag));
        Build { o }
    }
    fn put(mut self, k: &str, v: Value) -> Build {
        self.o.insert(k.to_string(), v);
        self
    }
    fn done(self) -> Res {
        Ok(Value::Object(self.o))
    }
}

fn child(o: &Obj, tag: &str, k: &str, kind: Kind) -> Res {
    norm(field(o, tag, k)?, kind)
}
fn child_opt(o: &Obj, tag: &str, k: &str, kind: Kind) -> Res {
    match *field(o, tag, k)? {
        Value::Null => Ok(Value::Null),
        ref v => norm(v, kind),
    }
}
fn children(o: &Obj, tag: &str, k: &str, kind: Kind) -> Res {
    let mut l = vec![];
    for v in array(o, tag, k)? {
        l.push(norm(v, kind)?);
    }
    Ok(Value::Array(l))
}

pub static UNARY: &[&str] = &["-", "+", "!", "~", "typeof", "void", "delete"];
pub static BINARY: &[&str] = &[
    "==", "!=", "===", "!==", "<", "<=", ">", ">=", "<<", ">>", ">>>", "+", "-", "*", "/", "%", "|", "^", "&", "in", "instanceof",
];
pub static ASSIGN: &[&str] = &["=", "+=", "-=", "*=", "/=", "%=", "<<=", ">>=", ">>>=", "|=", "^=", "&="];
pub static LOGICAL: &[&str] = &["||", "&&"];

/// The normal form of a well-formed document: only the fields that matter, in one spelling.
pub fn normal(v: &Value) -> Res {
    norm(v, Program)
}

fn one_of<'a>(o: &'a Obj, tag: &str, k: &str, set: &[&str]) -> Result<&'a str, Bad> {
    let t = text(o, tag, k)?;
    if set.contains(&t) {
        Ok(t)
    } else {
        Err(format!("{} of {} is {:?}", k, tag, t))
    }
}

fn norm(v: &Value, kind: Kind) -> Res {
    let (o, tag) = tag_of(v)?;
    let misplaced = || Err(format!("{} where {:?} is expected", tag, kind));
    match kind {
        Program => {
            if tag != "Program" {
                return misplaced();
            }
            Build::new(tag).put("body", children(o, tag, "body", StmtItem)?).done()
        }
        Ident => {
            if tag != "Identifier" {
                return misplaced();
            }
            Build::new(tag).put("name", s(text(o, tag, "name")?)).done()
        }
        Item if tag == "SpreadElement" => Build::new(tag).put("argument", child(o, tag, "argument", Expr)?).done(),
        Item | Expr => norm_expr(o, tag, kind),
        Target => match tag {
            "Identifier" | "MemberExpression" => norm_expr(o, tag, kind),
            _ => misplaced(),
        },
        Patt => match tag {
            "Identifier" | "MemberExpression" => norm_expr(o, tag, kind),
            "ArrayExpression" => {
                let l = array(o, tag, "elements")?;
                let mut out = vec![];
                for (i, v) in l.iter().enumerate() {
                    out.push(match *v {
                        Value::Null => Value::Null,
                        ref v => {
                            let (o, tag) = tag_of(v)?;
                            if tag == "SpreadElement" && i + 1 == l.len() {
                                Build::new(tag).put("argument", child(o, tag, "argument", Patt)?).done()?
                            } else {
                                norm(v, Patt)?
                            }
                        }
                    });
                }
                Build::new(tag).put("elements", Value::Array(out)).done()
            }
            "ObjectExpression" => Build::new(tag).put("properties", children(o, tag, "properties", PropPatt)?).done(),
            _ => misplaced(),
        },
        Prop | PropPatt => {
            if tag != "Property" {
                return misplaced();
            }
            match o.get("computed") {
                None | Some(&Value::Null) | Some(&Value::Bool(false)) => (),
                _ => return Err("computed property key".to_string()),
            }
            let kd = one_of(o, tag, "kind", if kind == Prop { &["init", "get", "set"] } else { &["init"] })?;
            let (mut method, mut shorthand) = (false, false);
            let (key, value);
            match kd {
                "init" if flag(o, tag, "method")? => {
                    if kind == PropPatt {
                        return misplaced();
                    }
                    method = true;
                    key = child(o, tag, "key", Key)?;
                    value = child(o, tag, "value", Method)?;
                }
                "init" if flag(o, tag, "shorthand")? => {
                    shorthand = true;
                    key = child(o, tag, "key", Ident)?;
                    value = child(o, tag, "value", Ident)?;
                    if key != value {
                        return Err("shorthand property whose key and value differ".to_string());
                    }
                }
                "init" => {
                    key = child(o, tag, "key", Key)?;
                    value = child(o, tag, "value", if kind == Prop { Expr } else { Patt })?;
                }
                "get" => {
                    key = child(o, tag, "key", Key)?;
                    value = child(o, tag, "value", Getter)?;
                }
                _ => {
                    key = child(o, tag, "key", Key)?;
                    value = child(o, tag, "value", Setter)?;
                }
            }
            Build::new(tag)
                .put("key", key)
                .put("value", value)
                .put("kind", s(kd))
                .put("method", Value::Bool(method))
                .put("shorthand", Value::Bool(shorthand))
                .put("computed", Value::Bool(false))
                .done()
        }
        Key => match tag {
            "Identifier" => norm(v, Ident),
            "Literal" => match *field(o, tag, "value")? {
                Value::String(_) | Value::I64(_) | Value::U64(_) | Value::F64(_) => norm_expr(o, tag, Expr),
                _ => misplaced(),
            },
            _ => misplaced(),
        },
        Method | Getter | Setter => {
            if tag != "FunctionExpression" {
                return misplaced();
            }
            if *field(o, tag, "id")? != Value::Null {
                return Err("named function as a method".to_string());
            }
            let f = norm_fun(o, tag, Value::Null)?;
            if kind != Method {
                let n = if kind == Getter { 0 } else { 1 };
                let ps = array(o, tag, "params")?;
                if ps.len() != n || ps.iter().any(|p| tag_of(p).map(|t| t.1 == "RestElement").unwrap_or(true)) {
                    return Err(format!("accessor with {} parameters", ps.len()));
                }
                if field(o, tag, "generator")? == &Value::Bool(true) {
                    return Err("accessor that is a generator".to_string());
                }
            }
            Ok(f)
        }
        Block => {
            if tag != "BlockStatement" {
                return misplaced();
            }
            Build::new(tag).put("body", children(o, tag, "body", StmtItem)?).done()
        }
        Dtor | Const | InDtor(_) => {
            if tag != "VariableDeclarator" {
                return misplaced();
            }
            let init = child_opt(o, tag, "init", Expr)?;
            match kind {
                Const if init == Value::Null => return Err("constant without initialiser".to_string()),
                InDtor(false) if init != Value::Null => return Err("initialiser in a for-in or for-of head".to_string()),
                _ => (),
            }
            Build::new(tag).put("id", child(o, tag, "id", Ident)?).put("init", init).done()
        }
        Case => {
            if tag != "SwitchCase" {
                return misplaced();
            }
            Build::new(tag).put("test", child_opt(o, tag, "test", Expr)?).put("consequent", children(o, tag, "consequent", StmtItem)?).done()
        }
        Catch => {
            if tag != "CatchClause" {
                return misplaced();
            }
            Build::new(tag).put("param", child(o, tag, "param", Ident)?).put("body", child(o, tag, "body", Block)?).done()
        }
        ForHead if tag == "VariableDeclaration" => norm_decl(o, tag, &["var", "let", "const"]),
        ForHead => norm(v, Expr),
        ForInHead | ForOfHead if tag == "VariableDeclaration" => {
            let kd = one_of(o, tag, "kind", &["var", "let", "const"])?;
            let ds = array(o, tag, "declarations")?;
            if ds.len() != 1 {
                return Err(format!("{} declarators in a for-in or for-of head", ds.len()));
            }
            let d = norm(&ds[0], InDtor(kind == ForInHead && kd == "var"))?;
            Build::new(tag).put("kind", s(kd)).put("declarations", Value::Array(vec![d])).done()
        }
        ForInHead | ForOfHead => norm(v, Patt),
        Stmt | StmtItem => norm_stmt(o, tag, kind),
    }
}

fn norm_decl(o: &Obj, tag: &str, kinds: &[&str]) -> Res {
    let kd = one_of(o, tag, "kind", kinds)?;
    let ds = children(o, tag, "declarations", if kd == "const" { Const } else { Dtor })?;
    Build::new(tag).put("kind", s(kd)).put("declarations", ds).done()
}

fn norm_fun(o: &Obj, tag: &str, id: Value) -> Res {
    let g = match *field(o, tag, "generator")? {
        Value::Null => false,
        Value::Bool(b) => b,
        _ => return Err("generator is not a boolean".to_string()),
    };
    let ps = array(o, tag, "params")?;
    let mut l = vec![];
    for (i, p) in ps.iter().enumerate() {
        let (po, pt) = tag_of(p)?;
        l.push(if pt == "RestElement" && i + 1 == ps.len() {
            Build::new(pt).put("argument", child(po, pt, "argument", Ident)?).done()?
        } else {
            norm(p, Ident)?
        });
    }
    Build::new(tag).put("id", id).put("params", Value::Array(l)).put("body", child(o, tag, "body", Block)?).put("generator", Value::Bool(g)).done()
}

fn norm_number(v: f64) -> Value {
    if v.fract() == 0.0 && !(v == 0.0 && v.is_sign_negative()) && v >= 0.0 && v < 18446744073709551616.0 {
        Value::U64(v as u64)
    } else {
        Value::F64(v)
    }
}

fn norm_expr(o: &Obj, tag: &str, kind: Kind) -> Res {
    let b = Build::new(tag);
    match tag {
        "Identifier" => b.put("name", s(text(o, tag, "name")?)).done(),
        "ThisExpression" => b.done(),
        "Literal" => match *field(o, tag, "value")? {
            Value::Null if !o.contains_key("regex") => b.put("value", Value::Null).done(),
            Value::Null | Value::Object(_) => match *field(o, tag, "regex")? {
                Value::Object(ref r) => {
                    let mut n = Obj::new();
                    n.insert("pattern".to_string(), s(text(r, "regex", "pattern")?));
                    n.insert("flags".to_string(), s(text(r, "regex", "flags")?));
                    b.put("value", Value::Null).put("regex", Value::Object(n)).done()
                }
                _ => Err("regex is not an object".to_string()),
            },
            Value::I64(n) => b.put("value", norm_number(n as f64)).done(),
            Value::U64(n) => b.put("value", norm_number(n as f64)).done(),
            Value::F64(n) => b.put("value", norm_number(n)).done(),
            Value::Array(_) => Err("literal value is an array".to_string()),
            ref v => b.put("value", v.clone()).done(),
        },
        "BinaryExpression" => b
            .put("operator", s(one_of(o, tag, "operator", BINARY)?))
            .put("left", child(o, tag, "left", Expr)?)
            .put("right", child(o, tag, "right", Expr)?)
            .done(),
        "LogicalExpression" => b
            .put("operator", s(one_of(o, tag, "operator", LOGICAL)?))
            .put("left", child(o, tag, "left", Expr)?)
            .put("right", child(o, tag, "right", Expr)?)
            .done(),
        "AssignmentExpression" => {
            let op = one_of(o, tag, "operator", ASSIGN)?;
            b.put("operator", s(op))
                .put("left", child(o, tag, "left", if op == "=" { Patt } else { Target })?)
                .put("right", child(o, tag, "right", Expr)?)
                .done()
        }
        "UnaryExpression" => b.put("operator", s(one_of(o, tag, "operator", UNARY)?)).put("argument", child(o, tag, "argument", Expr)?).done(),
        "UpdateExpression" => b
            .put("operator", s(one_of(o, tag, "operator", &["++", "--"])?))
            .put("argument", child(o, tag, "argument", Target)?)
            .put("prefix", Value::Bool(flag(o, tag, "prefix")?))
            .done(),
        "MemberExpression" => {
            let c = flag(o, tag, "computed")?;
            b.put("object", child(o, tag, "object", Expr)?)
                .put("property", child(o, tag, "property", if c { Expr } else { Ident })?)
                .put("computed", Value::Bool(c))
                .done()
        }
        "CallExpression" | "NewExpression" => {
            b.put("callee", child(o, tag, "callee", Expr)?).put("arguments", children(o, tag, "arguments", Item)?).done()
        }
        "ArrayExpression" => {
            let mut l = vec![];
            for v in array(o, tag, "elements")? {
                l.push(if *v == Value::Null { Value::Null } else { norm(v, Item)? });
            }
            b.put("elements", Value::Array(l)).done()
        }
        "FunctionExpression" => norm_fun(o, tag, child_opt(o, tag, "id", Ident)?),
        "SequenceExpression" => b.put("expressions", children(o, tag, "expressions", Expr)?).done(),
        "ObjectExpression" => b.put("properties", children(o, tag, "properties", Prop)?).done(),
        "ConditionalExpression" => b
            .put("test", child(o, tag, "test", Expr)?)
            .put("consequent", child(o, tag, "consequent", Expr)?)
            .put("alternate", child(o, tag, "alternate", Expr)?)
            .done(),
        "MetaProperty" => {
            let (m, p) = (child(o, tag, "meta", Ident)?, child(o, tag, "property", Ident)?);
            let name = |v: &Value| v.as_object().unwrap()["name"].as_str().unwrap().to_string();
            if name(&m) != "new" || name(&p) != "target" {
                return Err("meta property other than new.target".to_string());
            }
            b.put("meta", m).put("property", p).done()
        }
        _ => Err(format!("{} where {:?} is expected", tag, kind)),
    }
}

fn norm_stmt(o: &Obj, tag: &str, kind: Kind) -> Res {
    let b = Build::new(tag);
    match tag {
        "FunctionDeclaration" if kind == StmtItem => norm_fun(o, tag, child(o, tag, "id", Ident)?),
        "VariableDeclaration" => norm_decl(o, tag, if kind == StmtItem { &["var", "let", "const"] } else { &["var"] }),
        "EmptyStatement" | "DebuggerStatement" => b.done(),
        "ExpressionStatement" => b.put("expression", child(o, tag, "expression", Expr)?).done(),
        "IfStatement" => b
            .put("test", child(o, tag, "test", Expr)?)
            .put("consequent", child(o, tag, "consequent", Stmt)?)
            .put("alternate", child_opt(o, tag, "alternate", Stmt)?)
            .done(),
        "DoWhileStatement" | "WhileStatement" => b.put("test", child(o, tag, "test", Expr)?).put("body", child(o, tag, "body", Stmt)?).done(),
        "ForStatement" => b
            .put("init", child_opt(o, tag, "init", ForHead)?)
            .put("test", child_opt(o, tag, "test", Expr)?)
            .put("update", child_opt(o, tag, "update", Expr)?)
            .put("body", child(o, tag, "body", Stmt)?)
            .done(),
        "ForInStatement" | "ForOfStatement" => b
            .put("left", child(o, tag, "left", if tag == "ForInStatement" { ForInHead } else { ForOfHead })?)
            .put("right", child(o, tag, "right", Expr)?)
            .put("body", child(o, tag, "body", Stmt)?)
            .done(),
        "BlockStatement" => b.put("body", children(o, tag, "body", StmtItem)?).done(),
        "ReturnStatement" => b.put("argument", child_opt(o, tag, "argument", Expr)?).done(),
        "LabeledStatement" => b.put("label", child(o, tag, "label", Ident)?).put("body", child(o, tag, "body", Stmt)?).done(),
        "BreakStatement" | "ContinueStatement" => b.put("label", child_opt(o, tag, "label", Ident)?).done(),
        "SwitchStatement" => b.put("discriminant", child(o, tag, "discriminant", Expr)?).put("cases", children(o, tag, "cases", Case)?).done(),
        "WithStatement" => b.put("object", child(o, tag, "object", Expr)?).put("body", child(o, tag, "body", Stmt)?).done(),
        "ThrowStatement" => b.put("argument", child(o, tag, "argument", Expr)?).done(),
        "TryStatement" => b
            .put("block", child(o, tag, "block", Block)?)
            .put("handler", child_opt(o, tag, "handler", Catch)?)
            .put("finalizer", child_opt(o, tag, "finalizer", Block)?)
            .done(),
        _ => Err(format!("{} where {:?} is expected", tag, kind)),
    }
}
