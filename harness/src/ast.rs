//! An independent traversal of every field of the syntax tree: the basis of the dump the checks
//! compare, of location bookkeeping, and of the mutations that tell equal trees from different ones.
use crate::tok;
use easter::decl::{ConstDtor, Decl, Dtor, Export, Import};
use easter::expr::{Expr, ExprListItem};
use easter::fun::{Fun, Params};
use easter::id::Id;
use easter::obj::{DotKey, Prop, PropKey, PropVal};
use easter::patt::{AssignTarget, CompoundPatt, Patt, PropPatt, RestPatt};
use easter::punc::{Assop, AssopTag, Binop, BinopTag, Logop, LogopTag, Semi, Unop, UnopTag};
use easter::stmt::{Block, Body, Case, Catch, Dir, ForHead, ForInHead, ForOfHead, ModItem, Stmt, StmtListItem};
use joker::token::{NumberLiteral, RegExpLiteral, StringLiteral};
use joker::track::{Posn, Span, TrackingMut, TrackingRef};
use joker::word::Name;
use std::fmt::Write;

/// What a traversal may look at or change. Every node announces itself, then its own location, then
/// its parts in source order.
pub trait Vis {
    /// Called for every value that carries (or wraps) a location, before anything in it.
    fn node<T: TrackingMut + Walk>(&mut self, _kind: &'static str, _n: &mut T) {}
    fn open(&mut self, _kind: &'static str) {}
    fn close(&mut self) {}
    fn loc(&mut self, _l: &mut Option<Span>) {}
    fn semi(&mut self, _s: &mut Semi) {}
    fn name(&mut self, _n: &mut Name) {}
    fn text(&mut self, _s: &mut String) {}
    fn num(&mut self, _n: &mut NumberLiteral) {}
    fn strl(&mut self, _s: &mut StringLiteral) {}
    fn re(&mut self, _r: &mut RegExpLiteral) {}
    fn flag(&mut self, _b: &mut bool) {}
    fn unop(&mut self, _o: &mut UnopTag) {}
    fn binop(&mut self, _o: &mut BinopTag) {}
    fn logop(&mut self, _o: &mut LogopTag) {}
    fn assop(&mut self, _o: &mut AssopTag) {}
    /// Called before an expression is looked into.
    fn expr(&mut self, _e: &mut Expr) {}
    fn stmt(&mut self, _s: &mut Stmt) {}
    /// Called before a list is looked into; the flag says whether it may have any length.
    fn list<T: Clone + Walk>(&mut self, _v: &mut Vec<T>, _free: bool) {}
    /// Called before an optional part is looked into; the flag says whether it may be dropped.
    fn opt<T: Walk>(&mut self, _o: &mut Option<T>, _free: bool) {}
}

pub trait Walk: Sized {
    /// Whether this is a statement that consists of a string.
    fn is_string_stmt(&self) -> bool {
        false
    }
    fn walk<V: Vis>(&mut self, v: &mut V);
}

impl<T: Walk> Walk for Box<T> {
    fn walk<V: Vis>(&mut self, v: &mut V) {
        (**self).walk(v)
    }
}

fn list<T: Walk + Clone, V: Vis>(x: &mut Vec<T>, free: bool, v: &mut V) {
    v.list(x, free);
    v.open("[");
    for i in x.iter_mut() {
        i.walk(v);
    }
    v.close();
}
fn opt<T: Walk, V: Vis>(x: &mut Option<T>, free: bool, v: &mut V) {
    v.opt(x, free);
    match *x {
        Some(ref mut x) => x.walk(v),
        None => {
            v.open("-");
            v.close();
        }
    }
}

impl<T: Walk> Walk for Option<T> {
    fn walk<V: Vis>(&mut self, v: &mut V) {
        opt(self, true, v)
    }
}

/// An Option inside a function: its name.
pub trait FunId: Walk + Clone {}
impl FunId for Id {}
impl FunId for Option<Id> {}
impl FunId for PropKey {}

impl Walk for Id {
    fn walk<V: Vis>(&mut self, v: &mut V) {
        v.node("Id", self);
        v.open("Id");
        v.loc(&mut self.location);
        v.name(&mut self.name);
        v.close();
    }
}
impl Walk for DotKey {
    fn walk<V: Vis>(&mut self, v: &mut V) {
        v.node("DotKey", self);
        v.open("DotKey");
        v.loc(&mut self.location);
        v.text(&mut self.value);
        v.close();
    }
}
impl Walk for PropKey {
    fn walk<V: Vis>(&mut self, v: &mut V) {
        v.node("PropKey", self);
        match *self {
            PropKey::Id(ref mut l, ref mut s) => {
                v.open("KeyId");
                v.loc(l);
                v.text(s);
            }
            PropKey::String(ref mut l, ref mut s) => {
                v.open("KeyString");
                v.loc(l);
                v.strl(s);
            }
            PropKey::Number(ref mut l, ref mut n) => {
                v.open("KeyNumber");
                v.loc(l);
                v.num(n);
            }
        }
        v.close();
    }
}
impl Walk for Prop {
    fn walk<V: Vis>(&mut self, v: &mut V) {
        v.node("Prop", self);
        match *self {
            Prop::Regular(ref mut l, ref mut k, ref mut x) => {
                v.open("Regular");
                v.loc(l);
                k.walk(v);
                x.walk(v);
            }
            Prop::Method(ref mut f) => {
                v.open("Method");
                f.walk(v);
            }
            Prop::Shorthand(ref mut id) => {
                v.open("Shorthand");
                id.walk(v);
            }
        }
        v.close();
    }
}
impl Walk for PropVal {
    fn walk<V: Vis>(&mut self, v: &mut V) {
        v.node("PropVal", self);
        match *self {
            PropVal::Init(ref mut e) => {
                v.open("Init");
                e.walk(v);
            }
            PropVal::Get(ref mut l, ref mut b) => {
                v.open("Get");
                v.loc(l);
                b.walk(v);
            }
            PropVal::Set(ref mut l, ref mut p, ref mut b) => {
                v.open("Set");
                v.loc(l);
                p.walk(v);
                b.walk(v);
            }
        }
        v.close();
    }
}
impl<T: TrackingMut + Walk + Clone> Walk for Patt<T> {
    fn walk<V: Vis>(&mut self, v: &mut V) {
        v.node("Patt", self);
        match *self {
            Patt::Simple(ref mut x) => {
                v.open("Simple");
                x.walk(v);
            }
            Patt::Compound(ref mut x) => {
                v.open("Compound");
                x.walk(v);
            }
        }
        v.close();
    }
}
impl<T: TrackingMut + Walk + Clone> Walk for RestPatt<T> {
    fn walk<V: Vis>(&mut self, v: &mut V) {
        v.node("RestPatt", self);
        v.open("Rest");
        v.loc(&mut self.location);
        self.patt.walk(v);
        v.close();
    }
}
impl<T: TrackingMut + Walk + Clone> Walk for CompoundPatt<T> {
    fn walk<V: Vis>(&mut self, v: &mut V) {
        v.node("CompoundPatt", self);
        match *self {
            CompoundPatt::Arr(ref mut l, ref mut ps, ref mut rest) => {
                v.open("ArrPatt");
                v.loc(l);
                list(ps, true, v);
                opt(rest, true, v);
            }
            CompoundPatt::Obj(ref mut l, ref mut ps) => {
                v.open("ObjPatt");
                v.loc(l);
                list(ps, true, v);
            }
        }
        v.close();
    }
}
impl<T: TrackingMut + Walk + Clone> Walk for PropPatt<T> {
    fn walk<V: Vis>(&mut self, v: &mut V) {
        v.node("PropPatt", self);
        match *self {
            PropPatt::Regular(ref mut l, ref mut k, ref mut p) => {
                v.open("Regular");
                v.loc(l);
                k.walk(v);
                p.walk(v);
            }
            PropPatt::Shorthand(ref mut id) => {
                v.open("Shorthand");
                id.walk(v);
            }
        }
        v.close();
    }
}
impl Walk for AssignTarget {
    fn walk<V: Vis>(&mut self, v: &mut V) {
        v.node("AssignTarget", self);
        match *self {
            AssignTarget::Id(ref mut id) => {
                v.open("Target");
                id.walk(v);
            }
            AssignTarget::Dot(ref mut l, ref mut o, ref mut k) => {
                v.open("Dot");
                v.loc(l);
                o.walk(v);
                k.walk(v);
            }
            AssignTarget::Brack(ref mut l, ref mut o, ref mut k) => {
                v.open("Brack");
                v.loc(l);
                o.walk(v);
                k.walk(v);
            }
        }
        v.close();
    }
}
impl Walk for Params {
    fn walk<V: Vis>(&mut self, v: &mut V) {
        v.node("Params", self);
        v.open("Params");
        v.loc(&mut self.location);
        list(&mut self.list, true, v);
        opt(&mut self.rest, true, v);
        v.close();
    }
}
impl<I: FunId> Walk for Fun<I> {
    fn walk<V: Vis>(&mut self, v: &mut V) {
        v.node("Fun", self);
        v.open("Fun");
        v.loc(&mut self.location);
        v.flag(&mut self.generator);
        self.id.walk(v);
        self.params.walk(v);
        self.body.walk(v);
        v.close();
    }
}
impl<T: Walk + Clone> Walk for Body<T> {
    fn walk<V: Vis>(&mut self, v: &mut V) {
        v.node("Body", self);
        v.open("Body");
        v.loc(&mut self.location);
        list(&mut self.dirs, true, v);
        list(&mut self.items, true, v);
        v.close();
    }
}
impl Walk for Dir {
    fn walk<V: Vis>(&mut self, v: &mut V) {
        v.node("Dir", self);
        v.open("Dir");
        v.loc(&mut self.location);
        v.strl(&mut self.string);
        v.semi(&mut self.semi);
        v.close();
    }
}
impl Walk for Block {
    fn walk<V: Vis>(&mut self, v: &mut V) {
        v.node("Block", self);
        v.open("Block");
        v.loc(&mut self.location);
        list(&mut self.items, true, v);
        v.close();
    }
}
impl Walk for Catch {
    fn walk<V: Vis>(&mut self, v: &mut V) {
        v.node("Catch", self);
        v.open("Catch");
        v.loc(&mut self.location);
        self.param.walk(v);
        self.body.walk(v);
        v.close();
    }
}
impl Walk for Case {
    fn walk<V: Vis>(&mut self, v: &mut V) {
        v.node("Case", self);
        v.open("Case");
        v.loc(&mut self.location);
        opt(&mut self.test, true, v);
        list(&mut self.body, true, v);
        v.close();
    }
}
impl Walk for StmtListItem {
    fn is_string_stmt(&self) -> bool {
        match *self {
            StmtListItem::Stmt(Stmt::Expr(_, Expr::String(..), _)) => true,
            _ => false,
        }
    }
    fn walk<V: Vis>(&mut self, v: &mut V) {
        v.node("StmtListItem", self);
        match *self {
            StmtListItem::Decl(ref mut d) => d.walk(v),
            StmtListItem::Stmt(ref mut s) => s.walk(v),
        }
    }
}
impl Walk for ModItem {
    fn walk<V: Vis>(&mut self, v: &mut V) {
        v.node("ModItem", self);
        match *self {
            ModItem::Import(ref mut d) => d.walk(v),
            ModItem::Export(ref mut d) => d.walk(v),
            ModItem::StmtListItem(ref mut s) => s.walk(v),
        }
    }
}
impl Walk for Import {
    fn walk<V: Vis>(&mut self, v: &mut V) {
        v.node("Import", self);
        let Import::ForEffect(ref mut l, ref mut s) = *self;
        v.open("Import");
        v.loc(l);
        v.strl(s);
        v.close();
    }
}
impl Walk for Export {
    fn walk<V: Vis>(&mut self, v: &mut V) {
        v.node("Export", self);
        match *self {
            Export::Var(ref mut l, ref mut d, ref mut s) => {
                v.open("ExportVar");
                v.loc(l);
                list(d, false, v);
                v.semi(s);
            }
            Export::Decl(ref mut d) => {
                v.open("ExportDecl");
                d.walk(v);
            }
        }
        v.close();
    }
}
impl Walk for Decl {
    fn walk<V: Vis>(&mut self, v: &mut V) {
        v.node("Decl", self);
        match *self {
            Decl::Fun(ref mut f) => {
                v.open("FunDecl");
                f.walk(v);
            }
            Decl::Let(ref mut l, ref mut d, ref mut s) => {
                v.open("Let");
                v.loc(l);
                list(d, false, v);
                v.semi(s);
            }
            Decl::Const(ref mut l, ref mut d, ref mut s) => {
                v.open("Const");
                v.loc(l);
                list(d, false, v);
                v.semi(s);
            }
        }
        v.close();
    }
}
impl Walk for Dtor {
    fn walk<V: Vis>(&mut self, v: &mut V) {
        v.node("Dtor", self);
        match *self {
            Dtor::Simple(ref mut l, ref mut id, ref mut init) => {
                v.open("Dtor");
                v.loc(l);
                id.walk(v);
                opt(init, true, v);
            }
            Dtor::Compound(ref mut l, ref mut p, ref mut init) => {
                v.open("DtorCompound");
                v.loc(l);
                p.walk(v);
                init.walk(v);
            }
        }
        v.close();
    }
}
impl Walk for ConstDtor {
    fn walk<V: Vis>(&mut self, v: &mut V) {
        v.node("ConstDtor", self);
        v.open("ConstDtor");
        v.loc(&mut self.location);
        self.patt.walk(v);
        self.value.walk(v);
        v.close();
    }
}
impl Walk for ForHead {
    fn walk<V: Vis>(&mut self, v: &mut V) {
        v.node("ForHead", self);
        match *self {
            ForHead::Var(ref mut l, ref mut d) => {
                v.open("HeadVar");
                v.loc(l);
                list(d, false, v);
            }
            ForHead::Let(ref mut l, ref mut d) => {
                v.open("HeadLet");
                v.loc(l);
                list(d, false, v);
            }
            ForHead::Const(ref mut l, ref mut d) => {
                v.open("HeadConst");
                v.loc(l);
                list(d, false, v);
            }
            ForHead::Expr(ref mut l, ref mut e) => {
                v.open("HeadExpr");
                v.loc(l);
                e.walk(v);
            }
        }
        v.close();
    }
}
impl Walk for ForInHead {
    fn walk<V: Vis>(&mut self, v: &mut V) {
        v.node("ForInHead", self);
        match *self {
            ForInHead::VarInit(ref mut l, ref mut id, ref mut e) => {
                v.open("HeadVarInit");
                v.loc(l);
                id.walk(v);
                e.walk(v);
            }
            ForInHead::Var(ref mut l, ref mut p) => {
                v.open("HeadVar");
                v.loc(l);
                p.walk(v);
            }
            ForInHead::Let(ref mut l, ref mut p) => {
                v.open("HeadLet");
                v.loc(l);
                p.walk(v);
            }
            ForInHead::Const(ref mut l, ref mut p) => {
                v.open("HeadConst");
                v.loc(l);
                p.walk(v);
            }
            ForInHead::Patt(ref mut p) => {
                v.open("HeadPatt");
                p.walk(v);
            }
        }
        v.close();
    }
}
impl Walk for ForOfHead {
    fn walk<V: Vis>(&mut self, v: &mut V) {
        v.node("ForOfHead", self);
        match *self {
            ForOfHead::Var(ref mut l, ref mut p) => {
                v.open("HeadVar");
                v.loc(l);
                p.walk(v);
            }
            ForOfHead::Let(ref mut l, ref mut p) => {
                v.open("HeadLet");
                v.loc(l);
                p.walk(v);
            }
            ForOfHead::Const(ref mut l, ref mut p) => {
                v.open("HeadConst");
                v.loc(l);
                p.walk(v);
            }
            ForOfHead::Patt(ref mut p) => {
                v.open("HeadPatt");
                p.walk(v);
            }
        }
        v.close();
    }
}
impl Walk for Stmt {
    fn walk<V: Vis>(&mut self, v: &mut V) {
        v.stmt(self);
        v.node("Stmt", self);
        match *self {
            Stmt::Empty(ref mut l) => {
                v.open("Empty");
                v.loc(l);
            }
            Stmt::Block(ref mut b) => {
                v.open("BlockStmt");
                b.walk(v);
            }
            Stmt::Var(ref mut l, ref mut d, ref mut s) => {
                v.open("Var");
                v.loc(l);
                list(d, false, v);
                v.semi(s);
            }
            Stmt::Expr(ref mut l, ref mut e, ref mut s) => {
                v.open("ExprStmt");
                v.loc(l);
                e.walk(v);
                v.semi(s);
            }
            Stmt::If(ref mut l, ref mut e, ref mut c, ref mut a) => {
                v.open("If");
                v.loc(l);
                e.walk(v);
                c.walk(v);
                opt(a, true, v);
            }
            Stmt::Label(ref mut l, ref mut id, ref mut s) => {
                v.open("Label");
                v.loc(l);
                id.walk(v);
                s.walk(v);
            }
            Stmt::Break(ref mut l, ref mut id, ref mut s) => {
                v.open("Break");
                v.loc(l);
                opt(id, true, v);
                v.semi(s);
            }
            Stmt::Cont(ref mut l, ref mut id, ref mut s) => {
                v.open("Cont");
                v.loc(l);
                opt(id, true, v);
                v.semi(s);
            }
            Stmt::With(ref mut l, ref mut e, ref mut s) => {
                v.open("With");
                v.loc(l);
                e.walk(v);
                s.walk(v);
            }
            Stmt::Switch(ref mut l, ref mut e, ref mut c) => {
                v.open("Switch");
                v.loc(l);
                e.walk(v);
                list(c, true, v);
            }
            Stmt::Return(ref mut l, ref mut e, ref mut s) => {
                v.open("Return");
                v.loc(l);
                opt(e, true, v);
                v.semi(s);
            }
            Stmt::Throw(ref mut l, ref mut e, ref mut s) => {
                v.open("Throw");
                v.loc(l);
                e.walk(v);
                v.semi(s);
            }
            Stmt::Try(ref mut l, ref mut b, ref mut c, ref mut f) => {
                v.open("Try");
                v.loc(l);
                b.walk(v);
                opt(c, false, v);
                opt(f, false, v);
            }
            Stmt::While(ref mut l, ref mut e, ref mut s) => {
                v.open("While");
                v.loc(l);
                e.walk(v);
                s.walk(v);
            }
            Stmt::DoWhile(ref mut l, ref mut b, ref mut e, ref mut s) => {
                v.open("DoWhile");
                v.loc(l);
                b.walk(v);
                e.walk(v);
                v.semi(s);
            }
            Stmt::For(ref mut l, ref mut h, ref mut t, ref mut u, ref mut b) => {
                v.open("For");
                v.loc(l);
                opt(h, true, v);
                opt(t, true, v);
                opt(u, true, v);
                b.walk(v);
            }
            Stmt::ForIn(ref mut l, ref mut h, ref mut e, ref mut b) => {
                v.open("ForIn");
                v.loc(l);
                h.walk(v);
                e.walk(v);
                b.walk(v);
            }
            Stmt::ForOf(ref mut l, ref mut h, ref mut e, ref mut b) => {
                v.open("ForOf");
                v.loc(l);
                h.walk(v);
                e.walk(v);
                b.walk(v);
            }
            Stmt::Debugger(ref mut l, ref mut s) => {
                v.open("Debugger");
                v.loc(l);
                v.semi(s);
            }
        }
        v.close();
    }
}
impl Walk for ExprListItem {
    fn walk<V: Vis>(&mut self, v: &mut V) {
        v.node("ExprListItem", self);
        match *self {
            ExprListItem::Expr(ref mut e) => {
                v.open("Item");
                e.walk(v);
            }
            ExprListItem::Spread(ref mut l, ref mut e) => {
                v.open("Spread");
                v.loc(l);
                e.walk(v);
            }
        }
        v.close();
    }
}

struct UnopW<'a>(&'a mut Unop);
impl<'a> UnopW<'a> {
    fn walk<V: Vis>(self, v: &mut V) {
        v.open("Op");
        v.loc(&mut self.0.location);
        v.unop(&mut self.0.tag);
        v.close();
    }
}
impl Walk for Binop {
    fn walk<V: Vis>(&mut self, v: &mut V) {
        v.node("Binop", self);
        v.open("Op");
        v.loc(&mut self.location);
        v.binop(&mut self.tag);
        v.close();
    }
}
impl Walk for Logop {
    fn walk<V: Vis>(&mut self, v: &mut V) {
        v.node("Logop", self);
        v.open("Op");
        v.loc(&mut self.location);
        v.logop(&mut self.tag);
        v.close();
    }
}
impl Walk for Assop {
    fn walk<V: Vis>(&mut self, v: &mut V) {
        v.node("Assop", self);
        v.open("Op");
        v.loc(&mut self.location);
        v.assop(&mut self.tag);
        v.close();
    }
}
impl Walk for Unop {
    fn walk<V: Vis>(&mut self, v: &mut V) {
        v.node("Unop", self);
        UnopW(self).walk(v);
    }
}

impl Walk for Expr {
    fn walk<V: Vis>(&mut self, v: &mut V) {
        v.expr(self);
        v.node("Expr", self);
        match *self {
            Expr::This(ref mut l) => {
                v.open("This");
                v.loc(l);
            }
            Expr::Id(ref mut id) => {
                v.open("IdExpr");
                id.walk(v);
            }
            Expr::Arr(ref mut l, ref mut x) => {
                v.open("Arr");
                v.loc(l);
                list(x, true, v);
            }
            Expr::Obj(ref mut l, ref mut x) => {
                v.open("Obj");
                v.loc(l);
                list(x, true, v);
            }
            Expr::Fun(ref mut f) => {
                v.open("FunExpr");
                f.walk(v);
            }
            Expr::Seq(ref mut l, ref mut x) => {
                v.open("Seq");
                v.loc(l);
                list(x, false, v);
            }
            Expr::Unop(ref mut l, ref mut o, ref mut a) => {
                v.open("Unop");
                v.loc(l);
                o.walk(v);
                a.walk(v);
            }
            Expr::Binop(ref mut l, ref mut o, ref mut a, ref mut b) => {
                v.open("Binop");
                v.loc(l);
                a.walk(v);
                o.walk(v);
                b.walk(v);
            }
            Expr::Logop(ref mut l, ref mut o, ref mut a, ref mut b) => {
                v.open("Logop");
                v.loc(l);
                a.walk(v);
                o.walk(v);
                b.walk(v);
            }
            Expr::PreInc(ref mut l, ref mut t) => {
                v.open("PreInc");
                v.loc(l);
                t.walk(v);
            }
            Expr::PostInc(ref mut l, ref mut t) => {
                v.open("PostInc");
                v.loc(l);
                t.walk(v);
            }
            Expr::PreDec(ref mut l, ref mut t) => {
                v.open("PreDec");
                v.loc(l);
                t.walk(v);
            }
            Expr::PostDec(ref mut l, ref mut t) => {
                v.open("PostDec");
                v.loc(l);
                t.walk(v);
            }
            Expr::Assign(ref mut l, ref mut p, ref mut e) => {
                v.open("Assign");
                v.loc(l);
                p.walk(v);
                e.walk(v);
            }
            Expr::BinAssign(ref mut l, ref mut o, ref mut t, ref mut e) => {
                v.open("BinAssign");
                v.loc(l);
                t.walk(v);
                o.walk(v);
                e.walk(v);
            }
            Expr::Cond(ref mut l, ref mut a, ref mut b, ref mut c) => {
                v.open("Cond");
                v.loc(l);
                a.walk(v);
                b.walk(v);
                c.walk(v);
            }
            Expr::Call(ref mut l, ref mut f, ref mut a) => {
                v.open("Call");
                v.loc(l);
                f.walk(v);
                list(a, true, v);
            }
            Expr::New(ref mut l, ref mut f, ref mut a) => {
                v.open("New");
                v.loc(l);
                f.walk(v);
                match *a {
                    Some(ref mut a) => list(a, true, v),
                    None => {
                        v.open("-");
                        v.close();
                    }
                }
            }
            Expr::Dot(ref mut l, ref mut o, ref mut k) => {
                v.open("Dot");
                v.loc(l);
                o.walk(v);
                k.walk(v);
            }
            Expr::Brack(ref mut l, ref mut o, ref mut k) => {
                v.open("Brack");
                v.loc(l);
                o.walk(v);
                k.walk(v);
            }
            Expr::NewTarget(ref mut l) => {
                v.open("NewTarget");
                v.loc(l);
            }
            Expr::True(ref mut l) => {
                v.open("True");
                v.loc(l);
            }
            Expr::False(ref mut l) => {
                v.open("False");
                v.loc(l);
            }
            Expr::Null(ref mut l) => {
                v.open("Null");
                v.loc(l);
            }
            Expr::Number(ref mut l, ref mut n) => {
                v.open("Number");
                v.loc(l);
                v.num(n);
            }
            Expr::RegExp(ref mut l, ref mut r) => {
                v.open("RegExp");
                v.loc(l);
                v.re(r);
            }
            Expr::String(ref mut l, ref mut s) => {
                v.open("String");
                v.loc(l);
                v.strl(s);
            }
        }
        v.close();
    }
}

// ---------------------------------------------------------------- dumping

pub fn unop_text(t: &UnopTag) -> &'static str {
    match *t {
        UnopTag::Minus => "-",
        UnopTag::Plus => "+",
        UnopTag::Not => "!",
        UnopTag::BitNot => "~",
        UnopTag::Typeof => "typeof",
        UnopTag::Void => "void",
        UnopTag::Delete => "delete",
    }
}
pub fn binop_text(t: &BinopTag) -> &'static str {
    match *t {
        BinopTag::Eq => "==",
        BinopTag::NEq => "!=",
        BinopTag::StrictEq => "===",
        BinopTag::StrictNEq => "!==",
        BinopTag::Lt => "<",
        BinopTag::LEq => "<=",
        BinopTag::Gt => ">",
        BinopTag::GEq => ">=",
        BinopTag::LShift => "<<",
        BinopTag::RShift => ">>",
        BinopTag::URShift => ">>>",
        BinopTag::Plus => "+",
        BinopTag::Minus => "-",
        BinopTag::Times => "*",
        BinopTag::Div => "/",
        BinopTag::Mod => "%",
        BinopTag::BitOr => "|",
        BinopTag::BitXor => "^",
        BinopTag::BitAnd => "&",
        BinopTag::In => "in",
        BinopTag::Instanceof => "instanceof",
    }
}
pub fn logop_text(t: &LogopTag) -> &'static str {
    match *t {
        LogopTag::And => "&&",
        LogopTag::Or => "||",
    }
}
pub fn assop_text(t: &AssopTag) -> &'static str {
    match *t {
        AssopTag::PlusEq => "+=",
        AssopTag::MinusEq => "-=",
        AssopTag::TimesEq => "*=",
        AssopTag::DivEq => "/=",
        AssopTag::ModEq => "%=",
        AssopTag::LShiftEq => "<<=",
        AssopTag::RShiftEq => ">>=",
        AssopTag::URShiftEq => ">>>=",
        AssopTag::BitOrEq => "|=",
        AssopTag::BitXorEq => "^=",
        AssopTag::BitAndEq => "&=",
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Detail {
    /// shape, names, operators, literal values
    Value,
    /// and the sources of literals
    Source,
    /// and locations and terminators
    Full,
    /// values, locations and terminators: what equality looks at
    Tracked,
}

/// Writes a tree down completely, independently of its Debug and PartialEq implementations.
pub struct Dump {
    pub out: String,
    depth: usize,
    detail: Detail,
}

impl Dump {
    fn line(&mut self, s: &str) {
        for _ in 0..self.depth {
            self.out.push(' ');
        }
        self.out.push_str(s);
        self.out.push('\n');
    }
    fn add(&mut self, s: &str) {
        // append to the line of the node just opened
        self.out.pop();
        self.out.push(' ');
        self.out.push_str(s);
        self.out.push('\n');
    }
}

pub fn posn_text(p: &Posn) -> String {
    format!("{}({}:{})", p.offset, p.line, p.column)
}
pub fn span_text(l: &Option<Span>) -> String {
    match *l {
        None => "@none".to_string(),
        Some(ref s) => format!("@{}..{}", posn_text(&s.start), posn_text(&s.end)),
    }
}

impl Vis for Dump {
    fn open(&mut self, kind: &'static str) {
        self.line(kind);
        self.depth += 1;
    }
    fn close(&mut self) {
        self.depth -= 1;
    }
    fn loc(&mut self, l: &mut Option<Span>) {
        if self.detail == Detail::Full || self.detail == Detail::Tracked {
            let s = span_text(l);
            self.add(&s);
        }
    }
    fn semi(&mut self, s: &mut Semi) {
        if self.detail == Detail::Full || self.detail == Detail::Tracked {
            let t = match *s {
                Semi::Inserted => "semi inserted".to_string(),
                Semi::Explicit(None) => "semi explicit".to_string(),
                Semi::Explicit(Some(ref p)) => format!("semi explicit {}", posn_text(p)),
            };
            self.line(&t);
        }
    }
    fn name(&mut self, n: &mut Name) {
        let s = tok::name_dump(n);
        self.add(&s);
    }
    fn text(&mut self, s: &mut String) {
        let s = format!("{:?}", s);
        self.add(&s);
    }
    fn num(&mut self, n: &mut NumberLiteral) {
        let s = if self.detail == Detail::Value || self.detail == Detail::Tracked { format!("{:016x}", n.value.to_bits()) } else { tok::num_dump(n) };
        self.add(&s);
    }
    fn strl(&mut self, s: &mut StringLiteral) {
        let s = if self.detail == Detail::Value || self.detail == Detail::Tracked { format!("{:?}", s.value) } else { tok::str_dump(s) };
        self.add(&s);
    }
    fn re(&mut self, r: &mut RegExpLiteral) {
        let s = if self.detail == Detail::Value || self.detail == Detail::Tracked {
            let mut f = r.flags.clone();
            f.sort();
            format!("{:?} {:?}", r.pattern, f)
        } else {
            tok::re_dump(r)
        };
        self.add(&s);
    }
    fn flag(&mut self, b: &mut bool) {
        if *b {
            self.add("generator");
        }
    }
    fn unop(&mut self, o: &mut UnopTag) {
        self.add(unop_text(o));
    }
    fn binop(&mut self, o: &mut BinopTag) {
        self.add(binop_text(o));
    }
    fn logop(&mut self, o: &mut LogopTag) {
        self.add(logop_text(o));
    }
    fn assop(&mut self, o: &mut AssopTag) {
        self.add(assop_text(o));
    }
}

pub fn dump<T: Walk>(t: &mut T, detail: Detail) -> String {
    let mut d = Dump { out: String::new(), depth: 0, detail };
    t.walk(&mut d);
    d.out
}

/// The first line in which two dumps differ, with the path of nodes that leads to it.
pub fn dump_diff(expected: &str, actual: &str) -> Option<String> {
    if expected == actual {
        return None;
    }
    let (e, a): (Vec<&str>, Vec<&str>) = (expected.lines().collect(), actual.lines().collect());
    let i = (0..).find(|&i| e.get(i) != a.get(i)).unwrap();
    let depth = |s: &str| s.len() - s.trim_start_matches(' ').len();
    let mut path = vec![];
    let here = e.get(i).or(a.get(i)).unwrap();
    let mut d = depth(here);
    for j in (0..i).rev() {
        if depth(e[j]) < d {
            d = depth(e[j]);
            path.push(e[j].trim());
        }
    }
    path.reverse();
    let mut s = String::new();
    let _ = write!(
        s,
        "in {}: expected `{}`, got `{}`",
        path.join(" > "),
        e.get(i).map(|s| s.trim()).unwrap_or("(end)"),
        a.get(i).map(|s| s.trim()).unwrap_or("(end)")
    );
    Some(s)
}

// ---------------------------------------------------------------- locations

/// Applies a function to every location, and another to every statement terminator.
pub struct Relocate<F: FnMut(&mut Option<Span>), G: FnMut(&mut Semi)>(pub F, pub G);
impl<F: FnMut(&mut Option<Span>), G: FnMut(&mut Semi)> Vis for Relocate<F, G> {
    fn loc(&mut self, l: &mut Option<Span>) {
        (self.0)(l)
    }
    fn semi(&mut self, s: &mut Semi) {
        (self.1)(s)
    }
}
pub fn relocate<T: Walk>(t: &mut T, f: impl FnMut(&mut Option<Span>), g: impl FnMut(&mut Semi)) {
    t.walk(&mut Relocate(f, g))
}
pub fn erase<T: Walk>(t: &mut T) {
    relocate(t, |l| *l = None, |s| *s = Semi::Explicit(None))
}

pub fn own_location<T: TrackingRef>(t: &T) -> Option<Span> {
    *t.tracking_ref()
}
