//! Prints a syntax tree as a sequence of tokens, lays the tokens out as text, and derives from that
//! the location every node of the tree must get and how every statement must be terminated.
use crate::ast::{self, Walk};
use crate::engine::Src;
use crate::lexgen::{self, Bit};
use crate::reflex;
use crate::tok::{self, RESERVED};
use easter::decl::{ConstDtor, Decl, Dtor};
use easter::expr::{Expr, ExprListItem};
use easter::fun::{Fun, Params};
use easter::id::Id;
use easter::obj::{DotKey, Prop, PropKey, PropVal};
use easter::patt::{AssignTarget, CompoundPatt, Patt, PropPatt};
use easter::punc::{BinopTag, LogopTag, Semi};
use easter::stmt::{Block, Dir, ForHead, ForInHead, ForOfHead, Script, Stmt, StmtListItem};
use joker::token::{NumberLiteral, RegExpLiteral, StringLiteral};
use joker::track::{Posn, Span};
use std::collections::HashMap;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Slot {
    /// the statement ends in an expression, which some tokens would continue
    Expr,
    /// no token that can start a statement continues it
    Bare,
    /// do-while: nothing is needed
    DoWhile,
}

#[derive(Clone, Debug)]
pub struct Tok {
    pub text: String,
    /// a regular expression, to be lexed in operand position
    pub regexp: bool,
    pub slot: Option<Slot>,
    /// grouping parenthesis
    pub paren: bool,
    /// no line terminator may come before this token
    pub stuck: bool,
}

pub struct Style {
    /// one in this many expressions gets redundant parentheses (0: none)
    pub parens: u64,
    /// identifiers may be written with escapes
    pub escapes: bool,
    /// optional trailing commas, also in parameter lists
    pub commas: bool,
    pub param_commas: bool,
}

impl Style {
    pub fn plain() -> Style {
        Style { parens: 0, escapes: false, commas: false, param_commas: false }
    }
    pub fn any(src: &mut Src) -> Style {
        Style { parens: *src.pick(&[0, 12, 4]), escapes: src.bool(), commas: src.bool(), param_commas: true }
    }
}

pub struct Printer<'s> {
    pub src: &'s mut Src,
    pub toks: Vec<Tok>,
    style: Style,
    stuck: bool,
}

fn posn(offset: usize) -> Posn {
    Posn { offset: offset as u32, line: 0, column: 0 }
}

/// How tightly an expression binds; see the grammar's productions from Expression down to PrimaryExpression.
pub fn level(e: &Expr) -> u8 {
    match *e {
        Expr::Seq(..) => 0,
        Expr::Assign(..) | Expr::BinAssign(..) => 1,
        Expr::Cond(..) => 2,
        Expr::Logop(_, ref o, _, _) => match o.tag {
            LogopTag::Or => 3,
            LogopTag::And => 4,
        },
        Expr::Binop(_, ref o, _, _) => match o.tag {
            BinopTag::BitOr => 5,
            BinopTag::BitXor => 6,
            BinopTag::BitAnd => 7,
            BinopTag::Eq | BinopTag::NEq | BinopTag::StrictEq | BinopTag::StrictNEq => 8,
            BinopTag::Lt | BinopTag::LEq | BinopTag::Gt | BinopTag::GEq | BinopTag::In | BinopTag::Instanceof => 9,
            BinopTag::LShift | BinopTag::RShift | BinopTag::URShift => 10,
            BinopTag::Plus | BinopTag::Minus => 11,
            BinopTag::Times | BinopTag::Div | BinopTag::Mod => 12,
        },
        Expr::Unop(..) | Expr::PreInc(..) | Expr::PreDec(..) => 13,
        Expr::PostInc(..) | Expr::PostDec(..) => 14,
        Expr::New(_, _, None) => 15,
        Expr::Call(..) => 16,
        Expr::Dot(_, ref o, _) | Expr::Brack(_, ref o, _) => {
            if level(o) == 16 { 16 } else { 17 }
        }
        Expr::New(_, _, Some(_)) => 17,
        _ => 18,
    }
}
const ASSIGN: u8 = 1;
const UNARY: u8 = 13;
const LHS: u8 = 15;
const CALL: u8 = 16;
const MEMBER: u8 = 17;

#[derive(PartialEq, Clone, Copy)]
enum First {
    Brace,
    Function,
    Let,
    Other,
}

fn first_target(t: &AssignTarget) -> First {
    match *t {
        AssignTarget::Id(ref id) => if id.name.as_ref() == "let" { First::Let } else { First::Other },
        AssignTarget::Dot(_, ref o, _) | AssignTarget::Brack(_, ref o, _) => first(o),
    }
}
fn first_patt(p: &Patt<AssignTarget>) -> First {
    match *p {
        Patt::Simple(ref t) => first_target(t),
        Patt::Compound(CompoundPatt::Obj(..)) => First::Brace,
        _ => First::Other,
    }
}
/// The first token of an expression, were it printed without parentheses.
fn first(e: &Expr) -> First {
    match *e {
        Expr::Obj(..) => First::Brace,
        Expr::Fun(..) => First::Function,
        Expr::Id(ref id) => if id.name.as_ref() == "let" { First::Let } else { First::Other },
        Expr::Seq(_, ref es) => es.first().map_or(First::Other, first),
        Expr::Binop(_, _, ref a, _) | Expr::Logop(_, _, ref a, _) | Expr::Cond(_, ref a, _, _) => first(a),
        Expr::Call(_, ref a, _) | Expr::Dot(_, ref a, _) | Expr::Brack(_, ref a, _) => first(a),
        Expr::PostInc(_, ref t) | Expr::PostDec(_, ref t) => first_target(t),
        Expr::BinAssign(_, _, ref t, _) => first_target(t),
        Expr::Assign(_, ref p, _) => first_patt(p),
        _ => First::Other,
    }
}

impl<'s> Printer<'s> {
    pub fn new(src: &'s mut Src, style: Style) -> Printer<'s> {
        Printer { src, toks: vec![], style, stuck: false }
    }

    // ------------------------------------------------------------ tokens

    fn push(&mut self, text: &str, regexp: bool, paren: bool) {
        let stuck = std::mem::replace(&mut self.stuck, false);
        self.toks.push(Tok { text: text.to_string(), regexp, slot: None, paren, stuck });
    }
    fn t(&mut self, text: &str) {
        self.push(text, false, false)
    }
    fn slot(&mut self, s: &mut Semi, kind: Slot) {
        *s = Semi::Explicit(Some(posn(self.toks.len())));
        self.toks.push(Tok { text: ";".to_string(), regexp: false, slot: Some(kind), paren: false, stuck: false });
    }
    fn here(&self) -> usize {
        self.toks.len()
    }
    fn span(&self, start: usize) -> Option<Span> {
        // an empty node ends before it starts
        Some(Span { start: posn(start), end: Posn { offset: (self.toks.len() as u32).wrapping_sub(1), line: 0, column: 0 } })
    }
    fn word(&mut self, text: &str) {
        if self.style.escapes && !RESERVED.iter().any(|r| r.0 == text) && self.src.chance(1, 6) {
            let (s, _) = lexgen::spell_word(self.src, text, true);
            self.t(&s)
        } else {
            self.t(text)
        }
    }
    fn num(&mut self, n: &NumberLiteral) {
        let s = match n.source {
            Some(ref s) => tok::num_source(s),
            None => format!("{}", n.value),
        };
        self.t(&s)
    }
    fn string(&mut self, s: &StringLiteral) {
        match s.source {
            Some(ref t) => self.t(t),
            None => {
                let t = format!("{:?}", s.value);
                self.t(&t)
            }
        }
    }
    fn regexp(&mut self, r: &RegExpLiteral) {
        let t = format!("/{}/{}", r.pattern, r.flags.iter().collect::<String>());
        self.push(&t, true, false)
    }
    fn id(&mut self, id: &mut Id) {
        let s = self.here();
        let n = id.name.as_ref().to_string();
        self.word(&n);
        id.location = self.span(s);
    }
    fn dot_key(&mut self, k: &mut DotKey) {
        let s = self.here();
        let n = k.value.clone();
        self.word(&n);
        k.location = self.span(s);
    }
    fn key(&mut self, k: &mut PropKey) {
        let s = self.here();
        match *k {
            PropKey::Id(_, ref n) => self.word(n),
            PropKey::String(_, ref x) => self.string(x),
            PropKey::Number(_, ref n) => self.num(n),
        }
        let l = self.span(s);
        match *k {
            PropKey::Id(ref mut x, _) | PropKey::String(ref mut x, _) | PropKey::Number(ref mut x, _) => *x = l,
        }
    }

    // ------------------------------------------------------------ expressions

    pub fn expr(&mut self, e: &mut Expr, min: u8, no_in: bool) {
        let is_in = match *e {
            Expr::Binop(_, ref o, _, _) => o.tag == BinopTag::In,
            _ => false,
        };
        let mut n = if level(e) < min || (no_in && is_in) { 1 } else { 0 };
        if self.style.parens > 0 {
            let p = self.style.parens;
            while n < 3 && self.src.chance(1, p) {
                n += 1;
            }
        }
        for _ in 0..n {
            self.push("(", false, true);
        }
        self.bare_expr(e, no_in && n == 0);
        for _ in 0..n {
            self.push(")", false, true);
        }
    }

    fn bare_expr(&mut self, e: &mut Expr, no_in: bool) {
        let s = self.here();
        let lvl = level(e);
        match *e {
            Expr::This(ref mut l) => {
                self.t("this");
                *l = self.span(s);
            }
            Expr::Id(ref mut id) => self.id(id),
            Expr::Arr(ref mut l, ref mut xs) => {
                self.t("[");
                let n = xs.len();
                for (i, x) in xs.iter_mut().enumerate() {
                    let hole = x.is_none();
                    if let Some(ref mut x) = *x {
                        self.item(x);
                    }
                    if i + 1 < n || hole || (self.style.commas && self.src.chance(1, 3)) {
                        self.t(",");
                    }
                }
                self.t("]");
                *l = self.span(s);
            }
            Expr::Obj(ref mut l, ref mut ps) => {
                self.t("{");
                let n = ps.len();
                for (i, p) in ps.iter_mut().enumerate() {
                    self.prop(p);
                    if i + 1 < n || (self.style.commas && self.src.chance(1, 3)) {
                        self.t(",");
                    }
                }
                self.t("}");
                *l = self.span(s);
            }
            Expr::Fun(ref mut f) => {
                self.t("function");
                if f.generator {
                    self.t("*");
                }
                if let Some(ref mut id) = f.id {
                    self.id(id);
                }
                self.fun_rest(&mut f.params, &mut f.body);
                f.location = self.span(s);
            }
            Expr::Seq(ref mut l, ref mut xs) => {
                for (i, x) in xs.iter_mut().enumerate() {
                    if i > 0 {
                        self.t(",");
                    }
                    self.expr(x, ASSIGN, no_in);
                }
                *l = self.span(s);
            }
            Expr::Unop(ref mut l, ref mut o, ref mut a) => {
                self.t(ast::unop_text(&o.tag));
                o.location = self.span(s);
                self.expr(a, UNARY, no_in);
                *l = self.span(s);
            }
            Expr::Binop(ref mut l, ref mut o, ref mut a, ref mut b) => {
                self.expr(a, lvl, no_in);
                let q = self.here();
                self.t(ast::binop_text(&o.tag));
                o.location = self.span(q);
                self.expr(b, lvl + 1, no_in);
                *l = self.span(s);
            }
            Expr::Logop(ref mut l, ref mut o, ref mut a, ref mut b) => {
                self.expr(a, lvl, no_in);
                let q = self.here();
                self.t(ast::logop_text(&o.tag));
                o.location = self.span(q);
                self.expr(b, lvl + 1, no_in);
                *l = self.span(s);
            }
            Expr::PreInc(ref mut l, ref mut t) => {
                self.t("++");
                self.simple_target(t, false);
                *l = self.span(s);
            }
            Expr::PreDec(ref mut l, ref mut t) => {
                self.t("--");
                self.simple_target(t, false);
                *l = self.span(s);
            }
            Expr::PostInc(ref mut l, ref mut t) => {
                self.simple_target(t, false);
                self.stuck = true;
                self.t("++");
                *l = self.span(s);
            }
            Expr::PostDec(ref mut l, ref mut t) => {
                self.simple_target(t, false);
                self.stuck = true;
                self.t("--");
                *l = self.span(s);
            }
            Expr::Assign(ref mut l, ref mut p, ref mut v) => {
                self.patt(p, false);
                self.t("=");
                self.expr(v, ASSIGN, no_in);
                *l = self.span(s);
            }
            Expr::BinAssign(ref mut l, ref mut o, ref mut t, ref mut v) => {
                self.simple_target(t, false);
                let q = self.here();
                self.t(ast::assop_text(&o.tag));
                o.location = self.span(q);
                self.expr(v, ASSIGN, no_in);
                *l = self.span(s);
            }
            Expr::Cond(ref mut l, ref mut a, ref mut b, ref mut c) => {
                self.expr(a, 3, no_in);
                self.t("?");
                self.expr(b, ASSIGN, false);
                self.t(":");
                self.expr(c, ASSIGN, no_in);
                *l = self.span(s);
            }
            Expr::Call(ref mut l, ref mut f, ref mut a) => {
                self.expr(f, CALL, no_in);
                self.args(a);
                *l = self.span(s);
            }
            Expr::New(ref mut l, ref mut f, ref mut a) => {
                self.t("new");
                match *a {
                    Some(ref mut a) => {
                        self.expr(f, MEMBER, no_in);
                        self.args(a);
                    }
                    None => {
                        let min = match **f {
                            Expr::New(_, _, None) => LHS,
                            _ => MEMBER,
                        };
                        self.expr(f, min, no_in);
                    }
                }
                *l = self.span(s);
            }
            Expr::Dot(ref mut l, ref mut o, ref mut k) => {
                self.expr(o, CALL, no_in);
                self.t(".");
                self.dot_key(k);
                *l = self.span(s);
            }
            Expr::Brack(ref mut l, ref mut o, ref mut k) => {
                self.expr(o, CALL, no_in);
                self.t("[");
                self.expr(k, 0, false);
                self.t("]");
                *l = self.span(s);
            }
            Expr::NewTarget(ref mut l) => {
                self.t("new");
                self.t(".");
                self.t("target");
                *l = self.span(s);
            }
            Expr::True(ref mut l) => {
                self.t("true");
                *l = self.span(s);
            }
            Expr::False(ref mut l) => {
                self.t("false");
                *l = self.span(s);
            }
            Expr::Null(ref mut l) => {
                self.t("null");
                *l = self.span(s);
            }
            Expr::Number(ref mut l, ref n) => {
                self.num(n);
                *l = self.span(s);
            }
            Expr::RegExp(ref mut l, ref r) => {
                self.regexp(r);
                *l = self.span(s);
            }
            Expr::String(ref mut l, ref x) => {
                self.string(x);
                *l = self.span(s);
            }
        }
    }

    fn item(&mut self, x: &mut ExprListItem) {
        match *x {
            ExprListItem::Expr(ref mut e) => self.expr(e, ASSIGN, false),
            ExprListItem::Spread(ref mut l, ref mut e) => {
                let s = self.here();
                self.t("...");
                self.expr(e, ASSIGN, false);
                *l = self.span(s);
            }
        }
    }
    fn args(&mut self, xs: &mut Vec<ExprListItem>) {
        self.t("(");
        for (i, x) in xs.iter_mut().enumerate() {
            if i > 0 {
                self.t(",");
            }
            self.item(x);
        }
        self.t(")");
    }

    fn prop(&mut self, p: &mut Prop) {
        let s = self.here();
        match *p {
            Prop::Shorthand(ref mut id) => self.id(id),
            Prop::Regular(ref mut l, ref mut k, PropVal::Init(ref mut e)) => {
                self.key(k);
                self.t(":");
                self.expr(e, ASSIGN, false);
                *l = self.span(s);
            }
            Prop::Regular(ref mut l, ref mut k, PropVal::Get(ref mut vl, ref mut b)) => {
                self.t("get");
                self.key(k);
                let q = self.here();
                self.t("(");
                self.t(")");
                self.t("{");
                self.body(b);
                self.t("}");
                *vl = self.span(q);
                *l = self.span(s);
            }
            Prop::Regular(ref mut l, ref mut k, PropVal::Set(ref mut vl, ref mut p, ref mut b)) => {
                self.t("set");
                self.key(k);
                let q = self.here();
                self.t("(");
                self.binding(p);
                self.t(")");
                self.t("{");
                self.body(b);
                self.t("}");
                *vl = self.span(q);
                *l = self.span(s);
            }
            Prop::Method(ref mut f) => {
                if f.generator {
                    self.t("*");
                }
                self.key(&mut f.id);
                self.fun_rest(&mut f.params, &mut f.body);
                f.location = self.span(s);
            }
        }
    }

    // ------------------------------------------------------------ targets and patterns

    fn target(&mut self, t: &mut AssignTarget) {
        let s = self.here();
        match *t {
            AssignTarget::Id(ref mut id) => self.id(id),
            AssignTarget::Dot(ref mut l, ref mut o, ref mut k) => {
                self.expr(o, CALL, false);
                self.t(".");
                self.dot_key(k);
                *l = self.span(s);
            }
            AssignTarget::Brack(ref mut l, ref mut o, ref mut k) => {
                self.expr(o, CALL, false);
                self.t("[");
                self.expr(k, 0, false);
                self.t("]");
                *l = self.span(s);
            }
        }
    }
    /// Parentheses are allowed around a target that is not a pattern.
    fn simple_target(&mut self, t: &mut AssignTarget, force: bool) {
        let p = self.style.parens * 2;
        let paren = force || (p > 0 && self.src.chance(1, p));
        if paren {
            self.push("(", false, true);
        }
        self.target(t);
        if paren {
            self.push(")", false, true);
        }
    }
    fn patt(&mut self, p: &mut Patt<AssignTarget>, force: bool) {
        let s = self.here();
        match *p {
            Patt::Simple(ref mut t) => self.simple_target(t, force),
            Patt::Compound(CompoundPatt::Arr(ref mut l, ref mut ps, ref mut rest)) => {
                self.t("[");
                let n = ps.len();
                for (i, x) in ps.iter_mut().enumerate() {
                    let hole = x.is_none();
                    if let Some(ref mut x) = *x {
                        self.patt(x, false);
                    }
                    if i + 1 < n || hole || rest.is_some() || (self.style.commas && self.src.chance(1, 3)) {
                        self.t(",");
                    }
                }
                if let Some(ref mut r) = *rest {
                    let q = self.here();
                    self.t("...");
                    self.patt(&mut r.patt, false);
                    r.location = self.span(q);
                }
                self.t("]");
                *l = self.span(s);
            }
            Patt::Compound(CompoundPatt::Obj(ref mut l, ref mut ps)) => {
                self.t("{");
                let n = ps.len();
                for (i, x) in ps.iter_mut().enumerate() {
                    match *x {
                        PropPatt::Shorthand(ref mut id) => self.id(id),
                        PropPatt::Regular(ref mut l, ref mut k, ref mut p) => {
                            let q = self.here();
                            self.key(k);
                            self.t(":");
                            self.patt(p, false);
                            *l = self.span(q);
                        }
                    }
                    if i + 1 < n || (self.style.commas && self.src.chance(1, 3)) {
                        self.t(",");
                    }
                }
                self.t("}");
                *l = self.span(s);
            }
        }
    }
    fn binding(&mut self, p: &mut Patt<Id>) {
        match *p {
            Patt::Simple(ref mut id) => self.id(id),
            Patt::Compound(_) => self.t("{}"),
        }
    }

    // ------------------------------------------------------------ functions and bodies

    fn fun_rest(&mut self, p: &mut Params, b: &mut Script) {
        let s = self.here();
        self.t("(");
        let n = p.list.len();
        for (i, x) in p.list.iter_mut().enumerate() {
            self.binding(x);
            if i + 1 < n || p.rest.is_some() || (self.style.param_commas && self.style.commas && self.src.chance(1, 4)) {
                self.t(",");
            }
        }
        if let Some(ref mut r) = p.rest {
            let q = self.here();
            self.t("...");
            self.binding(&mut r.patt);
            r.location = self.span(q);
        }
        self.t(")");
        p.location = self.span(s);
        self.t("{");
        self.body(b);
        self.t("}");
    }

    pub fn body(&mut self, b: &mut Script) {
        let s = self.here();
        for d in b.dirs.iter_mut() {
            self.dir(d);
        }
        let mut prologue = true;
        for i in b.items.iter_mut() {
            self.list_item(i, prologue);
            prologue = false;
        }
        b.location = self.span(s);
    }
    fn dir(&mut self, d: &mut Dir) {
        let s = self.here();
        self.string(&d.string);
        self.slot(&mut d.semi, Slot::Expr);
        d.location = self.span(s);
    }

    fn list_item(&mut self, i: &mut StmtListItem, prologue: bool) {
        match *i {
            StmtListItem::Stmt(ref mut s) => self.stmt(s, prologue),
            StmtListItem::Decl(ref mut d) => {
                let s = self.here();
                match *d {
                    Decl::Fun(Fun { ref mut location, ref mut id, ref mut params, ref mut body, generator }) => {
                        self.t("function");
                        if generator {
                            self.t("*");
                        }
                        self.id(id);
                        self.fun_rest(params, body);
                        *location = self.span(s);
                    }
                    Decl::Let(ref mut l, ref mut ds, ref mut semi) => {
                        self.t("let");
                        let k = self.dtors(ds, false);
                        self.slot(semi, k);
                        *l = self.span(s);
                    }
                    Decl::Const(ref mut l, ref mut ds, ref mut semi) => {
                        self.t("const");
                        self.const_dtors(ds, false);
                        self.slot(semi, Slot::Expr);
                        *l = self.span(s);
                    }
                }
            }
        }
    }
    fn dtors(&mut self, ds: &mut Vec<Dtor>, no_in: bool) -> Slot {
        let mut kind = Slot::Bare;
        for (i, d) in ds.iter_mut().enumerate() {
            if i > 0 {
                self.t(",");
            }
            if let Dtor::Simple(ref mut l, ref mut id, ref mut init) = *d {
                let s = self.here();
                self.id(id);
                kind = Slot::Bare;
                if let Some(ref mut e) = *init {
                    self.t("=");
                    self.expr(e, ASSIGN, no_in);
                    kind = Slot::Expr;
                }
                *l = self.span(s);
            }
        }
        kind
    }
    fn const_dtors(&mut self, ds: &mut Vec<ConstDtor>, no_in: bool) {
        for (i, d) in ds.iter_mut().enumerate() {
            if i > 0 {
                self.t(",");
            }
            let s = self.here();
            self.binding(&mut d.patt);
            self.t("=");
            self.expr(&mut d.value, ASSIGN, no_in);
            d.location = self.span(s);
        }
    }
    fn block(&mut self, b: &mut Block) {
        let s = self.here();
        self.t("{");
        for i in b.items.iter_mut() {
            self.list_item(i, false);
        }
        self.t("}");
        b.location = self.span(s);
    }

    // ------------------------------------------------------------ statements

    fn paren(&mut self, e: &mut Expr) {
        self.t("(");
        self.expr(e, 0, false);
        self.t(")");
    }
    /// An expression where its first token must not be of certain kinds.
    fn guarded(&mut self, e: &mut Expr, no_in: bool, guard: bool) {
        if guard {
            self.push("(", false, true);
            self.expr(e, 0, false);
            self.push(")", false, true);
        } else {
            self.expr(e, 0, no_in);
        }
    }

    pub fn stmt(&mut self, st: &mut Stmt, prologue: bool) {
        let s = self.here();
        match *st {
            Stmt::Empty(ref mut l) => {
                self.t(";");
                *l = self.span(s);
            }
            Stmt::Block(ref mut b) => self.block(b),
            Stmt::Var(ref mut l, ref mut ds, ref mut semi) => {
                self.t("var");
                let k = self.dtors(ds, false);
                self.slot(semi, k);
                *l = self.span(s);
            }
            Stmt::Expr(ref mut l, ref mut e, ref mut semi) => {
                let string = match *e {
                    Expr::String(..) => true,
                    _ => false,
                };
                let guard = first(e) != First::Other || (prologue && string);
                self.guarded(e, false, guard);
                self.slot(semi, Slot::Expr);
                *l = self.span(s);
            }
            Stmt::If(ref mut l, ref mut e, ref mut c, ref mut a) => {
                self.t("if");
                self.paren(e);
                self.stmt(c, false);
                if let Some(ref mut a) = *a {
                    self.t("else");
                    self.stmt(a, false);
                }
                *l = self.span(s);
            }
            Stmt::Label(ref mut l, ref mut id, ref mut b) => {
                self.id(id);
                self.t(":");
                self.stmt(b, false);
                *l = self.span(s);
            }
            Stmt::Break(ref mut l, ref mut id, ref mut semi) => {
                self.t("break");
                if let Some(ref mut id) = *id {
                    self.stuck = true;
                    self.id(id);
                }
                self.slot(semi, Slot::Bare);
                *l = self.span(s);
            }
            Stmt::Cont(ref mut l, ref mut id, ref mut semi) => {
                self.t("continue");
                if let Some(ref mut id) = *id {
                    self.stuck = true;
                    self.id(id);
                }
                self.slot(semi, Slot::Bare);
                *l = self.span(s);
            }
            Stmt::With(ref mut l, ref mut e, ref mut b) => {
                self.t("with");
                self.paren(e);
                self.stmt(b, false);
                *l = self.span(s);
            }
            Stmt::Switch(ref mut l, ref mut e, ref mut cs) => {
                self.t("switch");
                self.paren(e);
                self.t("{");
                for c in cs.iter_mut() {
                    let q = self.here();
                    match c.test {
                        Some(ref mut e) => {
                            self.t("case");
                            self.expr(e, 0, false);
                        }
                        None => self.t("default"),
                    }
                    self.t(":");
                    for i in c.body.iter_mut() {
                        self.list_item(i, false);
                    }
                    c.location = self.span(q);
                }
                self.t("}");
                *l = self.span(s);
            }
            Stmt::Return(ref mut l, ref mut e, ref mut semi) => {
                self.t("return");
                let mut k = Slot::Bare;
                if let Some(ref mut e) = *e {
                    self.stuck = true;
                    self.expr(e, 0, false);
                    k = Slot::Expr;
                }
                self.slot(semi, k);
                *l = self.span(s);
            }
            Stmt::Throw(ref mut l, ref mut e, ref mut semi) => {
                self.t("throw");
                self.stuck = true;
                self.expr(e, 0, false);
                self.slot(semi, Slot::Expr);
                *l = self.span(s);
            }
            Stmt::Try(ref mut l, ref mut b, ref mut c, ref mut f) => {
                self.t("try");
                self.block(b);
                if let Some(ref mut c) = *c {
                    let q = self.here();
                    self.t("catch");
                    self.t("(");
                    self.binding(&mut c.param);
                    self.t(")");
                    self.block(&mut c.body);
                    c.location = self.span(q);
                }
                if let Some(ref mut f) = *f {
                    self.t("finally");
                    self.block(f);
                }
                *l = self.span(s);
            }
            Stmt::While(ref mut l, ref mut e, ref mut b) => {
                self.t("while");
                self.paren(e);
                self.stmt(b, false);
                *l = self.span(s);
            }
            Stmt::DoWhile(ref mut l, ref mut b, ref mut e, ref mut semi) => {
                self.t("do");
                self.stmt(b, false);
                self.t("while");
                self.paren(e);
                self.slot(semi, Slot::DoWhile);
                *l = self.span(s);
            }
            Stmt::For(ref mut l, ref mut h, ref mut t, ref mut u, ref mut b) => {
                self.t("for");
                self.t("(");
                let q = self.here();
                match *h {
                    None => {}
                    Some(ref mut h) => match **h {
                        ForHead::Var(_, ref mut ds) => {
                            self.t("var");
                            self.dtors(ds, true);
                        }
                        ForHead::Let(_, ref mut ds) => {
                            self.t("let");
                            self.dtors(ds, true);
                        }
                        ForHead::Const(_, ref mut ds) => {
                            self.t("const");
                            self.const_dtors(ds, true);
                        }
                        ForHead::Expr(_, ref mut e) => {
                            let guard = first(e) == First::Let;
                            self.guarded(e, true, guard);
                        }
                    },
                }
                self.t(";");
                if let Some(ref mut h) = *h {
                    let loc = self.span(q);
                    match **h {
                        ForHead::Var(ref mut l, _) | ForHead::Let(ref mut l, _) | ForHead::Const(ref mut l, _) | ForHead::Expr(ref mut l, _) => *l = loc,
                    }
                }
                if let Some(ref mut t) = *t {
                    self.expr(t, 0, false);
                }
                self.t(";");
                if let Some(ref mut u) = *u {
                    self.expr(u, 0, false);
                }
                self.t(")");
                self.stmt(b, false);
                *l = self.span(s);
            }
            Stmt::ForIn(ref mut l, ref mut h, ref mut e, ref mut b) => {
                self.t("for");
                self.t("(");
                let q = self.here();
                match **h {
                    ForInHead::VarInit(ref mut l, ref mut id, ref mut e) => {
                        self.t("var");
                        self.id(id);
                        self.t("=");
                        self.expr(e, ASSIGN, true);
                        *l = self.span(q);
                    }
                    ForInHead::Var(ref mut l, ref mut p) => {
                        self.t("var");
                        self.binding(p);
                        *l = self.span(q);
                    }
                    ForInHead::Let(ref mut l, ref mut p) => {
                        self.t("let");
                        self.binding(p);
                        *l = self.span(q);
                    }
                    ForInHead::Const(ref mut l, ref mut p) => {
                        self.t("const");
                        self.binding(p);
                        *l = self.span(q);
                    }
                    ForInHead::Patt(ref mut p) => self.for_patt(p),
                }
                self.t("in");
                self.expr(e, 0, false);
                self.t(")");
                self.stmt(b, false);
                *l = self.span(s);
            }
            Stmt::ForOf(ref mut l, ref mut h, ref mut e, ref mut b) => {
                self.t("for");
                self.t("(");
                let q = self.here();
                match **h {
                    ForOfHead::Var(ref mut l, ref mut p) => {
                        self.t("var");
                        self.binding(p);
                        *l = self.span(q);
                    }
                    ForOfHead::Let(ref mut l, ref mut p) => {
                        self.t("let");
                        self.binding(p);
                        *l = self.span(q);
                    }
                    ForOfHead::Const(ref mut l, ref mut p) => {
                        self.t("const");
                        self.binding(p);
                        *l = self.span(q);
                    }
                    ForOfHead::Patt(ref mut p) => self.for_patt(p),
                }
                self.t("of");
                self.expr(e, ASSIGN, false);
                self.t(")");
                self.stmt(b, false);
                *l = self.span(s);
            }
            Stmt::Debugger(ref mut l, ref mut semi) => {
                self.t("debugger");
                self.slot(semi, Slot::Bare);
                *l = self.span(s);
            }
        }
    }

    /// The target of a for-in or for-of head may not begin with let, nor be just async.
    fn for_patt(&mut self, p: &mut Patt<AssignTarget>) {
        let force = first_patt(p) == First::Let
            || match *p {
                Patt::Simple(AssignTarget::Id(ref id)) => id.name.as_ref() == "async",
                _ => false,
            };
        self.patt(p, force)
    }
}

// ---------------------------------------------------------------- layout

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Spacing {
    /// nothing but what is needed to keep tokens apart
    Tight,
    /// single spaces and line feeds
    Plain,
    /// any white space and comments
    Wild,
}

#[derive(Clone, Copy)]
pub struct Lay {
    pub spacing: Spacing,
    pub html: bool,
    /// chance in eight that a terminator that may be omitted is
    pub omit: u64,
}

impl Lay {
    pub fn any(src: &mut Src) -> Lay {
        let spacing = *src.pick(&[Spacing::Plain, Spacing::Tight, Spacing::Wild]);
        Lay { spacing, html: true, omit: *src.pick(&[0, 4, 8]) }
    }
    pub fn explicit() -> Lay {
        Lay { spacing: Spacing::Plain, html: false, omit: 0 }
    }
}

#[derive(Clone)]
pub struct Laid {
    pub text: String,
    pub chars: Vec<char>,
    /// where each token of the sequence starts and ends, and one more for the end of input
    pub places: Vec<(Posn, Posn)>,
    /// terminators that were left out
    pub omitted: Vec<bool>,
    starts: HashMap<u32, Posn>,
    ends: HashMap<u32, Posn>,
}

fn glue_ok(a: &Tok, b: &Tok) -> bool {
    let lx = |t: &Tok| lexgen::Lexeme { text: t.text.clone(), dump: String::new(), kind: "", op: Some(!t.regexp) };
    lexgen::glue_ok(&lx(a), &lx(b))
}

/// May the terminator at i be left out, and if so, must a line terminator stand in for it?
pub fn omittable(toks: &[Tok], i: usize) -> Option<bool> {
    let next = match toks.get(i + 1) {
        None => return Some(false),
        Some(t) => t,
    };
    if next.text == "}" {
        return Some(false);
    }
    // a semicolon would itself become the terminator
    if next.text == ";" {
        return None;
    }
    match toks[i].slot {
        Some(Slot::DoWhile) => Some(false),
        Some(Slot::Bare) => Some(true),
        Some(Slot::Expr) => {
            if next.regexp || next.text == "(" || next.text == "[" || next.text == "+" || next.text == "-" {
                None
            } else {
                Some(true)
            }
        }
        None => None,
    }
}

/// Where the characters of a text are, as offset, line and column.
pub fn posn_table(cs: &[char]) -> Vec<Posn> {
    let mut v = Vec::with_capacity(cs.len() + 1);
    let (mut line, mut column) = (0, 0);
    let mut i = 0;
    while i <= cs.len() {
        v.push(Posn { offset: i as u32, line, column });
        if i == cs.len() {
            break;
        }
        let c = cs[i];
        if c == '\r' && cs.get(i + 1) == Some(&'\n') {
            column += 1;
        } else if reflex::is_nl(c) {
            line += 1;
            column = 0;
        } else {
            column += 1;
        }
        i += 1;
    }
    v
}

pub fn lay_out(src: &mut Src, toks: &[Tok], lay: &Lay) -> Laid {
    let n = toks.len();
    let mut omitted = vec![false; n];
    let mut gaps: Vec<Vec<Bit>> = Vec::with_capacity(n + 1);
    let mut need_nl = false;
    let mut prev: Option<&Tok> = None;
    for i in 0..n {
        if toks[i].slot.is_some() {
            if let Some(nl) = omittable(toks, i) {
                if src.chance(lay.omit, 8) {
                    omitted[i] = true;
                    need_nl = need_nl || nl;
                    gaps.push(vec![]);
                    continue;
                }
            }
        }
        let mut g = match lay.spacing {
            Spacing::Tight => vec![],
            Spacing::Plain => {
                if toks[i].stuck || !src.chance(1, 10) {
                    if i > 0 { vec![Bit::Space(' ')] } else { vec![] }
                } else {
                    vec![Bit::Nl("\n")]
                }
            }
            Spacing::Wild => lexgen::trivia(src, i == 0, false, lay.html, !toks[i].stuck, 3),
        };
        if need_nl && !lexgen::bits_newline(&g) {
            let nl = *src.pick(reflex::NEWLINES);
            g.push(Bit::Nl(nl));
        }
        need_nl = false;
        if let Some(p) = prev {
            if g.is_empty() && !glue_ok(p, &toks[i]) {
                g.push(Bit::Space(' '));
            } else if !g.is_empty() && lexgen::needs_space(&p.text, &g[0].text()) {
                g.insert(0, Bit::Space(' '));
            }
        }
        gaps.push(g);
        prev = Some(&toks[i]);
    }
    let mut last = match lay.spacing {
        Spacing::Wild => lexgen::trivia(src, prev.is_none(), true, lay.html, true, 3),
        Spacing::Plain if src.bool() => vec![Bit::Nl("\n")],
        _ => vec![],
    };
    if let Some(p) = prev {
        if !last.is_empty() && lexgen::needs_space(&p.text, &last[0].text()) {
            last.insert(0, Bit::Space(' '));
        }
    }
    gaps.push(last);

    let (mut text, mut spans) = assemble(toks, &omitted, &gaps);
    if !sound(toks, &omitted, &text, &spans) {
        // tokens that only run together in threes
        for i in 1..n {
            if gaps[i].is_empty() && !omitted[i] {
                gaps[i].push(Bit::Space(' '));
            }
        }
        let r = assemble(toks, &omitted, &gaps);
        text = r.0;
        spans = r.1;
        assert!(sound(toks, &omitted, &text, &spans), "layout does not keep its tokens apart: {:?}", text);
    }
    let chars: Vec<char> = text.chars().collect();
    let table = posn_table(&chars);
    let places: Vec<(Posn, Posn)> = spans.iter().map(|&(s, e)| (table[s], table[e])).collect();

    // grouping parentheses at the edge of a node may be counted in or left out
    let (mut starts, mut ends) = (HashMap::new(), HashMap::new());
    for i in (0..n).rev() {
        if toks[i].paren && toks[i].text == "(" {
            let next = places[i + 1].0;
            let next = *starts.get(&next.offset).unwrap_or(&next);
            starts.insert(places[i].0.offset, next);
        }
    }
    for i in 0..n {
        if toks[i].paren && toks[i].text == ")" {
            let p = places[i - 1].1;
            let p = *ends.get(&p.offset).unwrap_or(&p);
            ends.insert(places[i].1.offset, p);
        }
    }
    Laid { text, chars, places, omitted, starts, ends }
}

fn assemble(toks: &[Tok], omitted: &[bool], gaps: &[Vec<Bit>]) -> (String, Vec<(usize, usize)>) {
    let mut text = String::new();
    let mut pos = 0;
    let mut end = 0;
    let mut spans = vec![];
    for i in 0..toks.len() {
        if omitted[i] {
            // stands at the end of the token before
            spans.push((end, end));
            continue;
        }
        let g = lexgen::bits_text(&gaps[i]);
        pos += g.chars().count();
        text.push_str(&g);
        let k = toks[i].text.chars().count();
        text.push_str(&toks[i].text);
        spans.push((pos, pos + k));
        pos += k;
        end = pos;
    }
    let g = lexgen::bits_text(&gaps[toks.len()]);
    pos += g.chars().count();
    text.push_str(&g);
    spans.push((pos, pos));
    (text, spans)
}

/// The reference lexer finds exactly these tokens.
fn sound(toks: &[Tok], omitted: &[bool], text: &str, spans: &[(usize, usize)]) -> bool {
    let cs: Vec<char> = text.chars().collect();
    let real: Vec<usize> = (0..toks.len()).filter(|&i| !omitted[i]).collect();
    let (rt, err) = reflex::lex_all(&cs, |k| real.get(k).map_or(true, |&i| !toks[i].regexp));
    err.is_none() && rt.len() == real.len() + 1 && real.iter().zip(&rt).all(|(&i, t)| (t.start, t.end) == spans[i])
}

impl Laid {
    fn resolve(&self, s: &Span) -> Span {
        let (i, j) = (s.start.offset as usize, s.end.offset);
        if s.end.offset == u32::max_value() || (j as usize) < i {
            // nothing in it: at the token that follows
            let p = self.places[i].0;
            return Span { start: p, end: p };
        }
        Span { start: self.places[i].0, end: self.places[j as usize].1 }
    }
    /// Turns the token numbers a printed tree carries into places in this text.
    pub fn locate<T: Walk>(&self, t: &mut T) {
        ast::relocate(
            t,
            |l| {
                if let Some(ref mut s) = *l {
                    *s = self.resolve(s);
                }
            },
            |s| {
                if let Semi::Explicit(Some(p)) = *s {
                    let i = p.offset as usize;
                    *s = if self.omitted[i] { Semi::Inserted } else { Semi::Explicit(Some(self.places[i].0)) };
                }
            },
        )
    }
    /// Leaves grouping parentheses out of every location.
    pub fn canonical<T: Walk>(&self, t: &mut T) {
        ast::relocate(
            t,
            |l| {
                if let Some(ref mut s) = *l {
                    if s.start == s.end {
                        return;
                    }
                    if let Some(p) = self.starts.get(&s.start.offset) {
                        s.start = *p;
                    }
                    if let Some(p) = self.ends.get(&s.end.offset) {
                        s.end = *p;
                    }
                }
            },
            |_| {},
        )
    }
}

/// Prints a program; the tree then carries token numbers for locations.
pub fn print(src: &mut Src, tree: &mut Script, style: Style) -> Vec<Tok> {
    let mut p = Printer::new(src, style);
    p.body(tree);
    p.toks
}
