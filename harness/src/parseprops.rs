//! Properties C11 to C21 and C30: the parser.
use crate::ast::{self, Detail, Vis, Walk};
use crate::astgen::{self, id, op, str_lit, Gen, Goal, Opts};
use crate::engine::*;
use crate::lexdrv;
use crate::parsedrv::*;
use crate::print::{self, level, Lay, Printer, Slot, Spacing, Style};
use crate::reflex;
use crate::scope::{self, At, Breach, Role};
use easter::decl::{Decl, Dtor};
use easter::expr::{Expr, ExprListItem};
use easter::fun::{Fun, Params};
use easter::obj::{DotKey, Prop, PropKey, PropVal};
use easter::patt::{AssignTarget, CompoundPatt, Patt, PropPatt, RestPatt};
use easter::punc::{AssopTag, BinopTag, LogopTag, Semi, UnopTag};
use easter::stmt::{Block, Body, Dir, ForHead, ForInHead, ForOfHead, Script, Stmt, StmtListItem};
use esprit::error::Error;
use joker::token::{Token, TokenData};
use joker::track::Span;
use joker::word::Atom;

fn expr_stmt(e: Expr) -> StmtListItem {
    StmtListItem::Stmt(Stmt::Expr(None, e, Semi::Explicit(None)))
}
fn body(items: Vec<StmtListItem>) -> Script {
    Body { location: None, dirs: vec![], items }
}
fn ident(s: &str) -> Expr {
    Expr::Id(id(s))
}
fn compare<T: Walk>(expected: &mut T, actual: &mut T, detail: Detail) -> Option<String> {
    ast::dump_diff(&ast::dump(expected, detail), &ast::dump(actual, detail))
}

// ------------------------------------------------------------------ C11

fn c11_roundtrip(src: &mut Src, case: &mut Case) {
    let goal = astgen::goal(src);
    let opts = Opts::new(goal, src.range(2, 60));
    let style = Style::any(src);
    let lay = Lay::any(src);
    let mut m = make(src, opts, style, &lay);
    case.set_input(m.input());
    kinds(&mut m.tree, case);
    case.nontrivial = m.toks.len() > 3;
    expect(&mut m, Detail::Source, case);
}
/// Two printed forms of one tree, plain and free, parse alike.
fn c11_layouts(src: &mut Src, case: &mut Case) {
    let goal = astgen::goal(src);
    let mut opts = Opts::new(goal, src.range(2, 40));
    opts.plain = true;
    let tree = Gen::new(src, opts).program();
    let a = lay(src, goal, tree.clone(), Style::plain(), &Lay::explicit());
    let style = Style::any(src);
    let l = Lay::any(src);
    let b = lay(src, goal, tree, style, &l);
    case.set_input(format!("{:?} {:?} and {:?}", goal, a.laid.text, b.laid.text));
    case.nontrivial = a.laid.text != b.laid.text;
    match (parse(goal, &a.laid.text), parse(goal, &b.laid.text)) {
        (Ok(mut x), Ok(mut y)) => {
            if let Some(d) = compare(&mut x, &mut y, Detail::Source) {
                case.fail(d);
            }
        }
        (x, y) => case.fail(format!("rejected: {:?} {:?}", x.err(), y.err())),
    }
}
/// Long sequences of each kind of list, and deep statements.
fn c11_large(src: &mut Src, case: &mut Case) {
    let goal = astgen::goal(src);
    let mut opts = Opts::new(goal, 600);
    opts.plain = true;
    let style = Style::any(src);
    let lay = Lay::any(src);
    let mut m = make(src, opts, style, &lay);
    case.set_input(m.input());
    case.nontrivial = m.toks.len() > 60;
    expect(&mut m, Detail::Source, case);
}

// ------------------------------------------------------------------ C12

/// The forms of expression, with the number of operands each has.
fn forms() -> Vec<(String, usize)> {
    let mut v: Vec<(String, usize)> = vec![];
    for t in astgen::BINOPS {
        v.push((format!("binop {}", ast::binop_text(t)), 2));
    }
    for t in astgen::LOGOPS {
        v.push((format!("logop {}", ast::logop_text(t)), 2));
    }
    for t in astgen::UNOPS {
        v.push((format!("unop {}", ast::unop_text(t)), 1));
    }
    for t in astgen::ASSOPS {
        v.push((format!("assop {}", ast::assop_text(t)), 1));
    }
    for (s, n) in &[
        ("preinc", 0), ("postinc", 0), ("predec", 0), ("postdec", 0), ("postinc of", 1), ("predec of", 1), ("assign", 1), ("assign to", 1), ("cond", 3), ("call", 2),
        ("call spread", 1), ("new args", 2), ("new", 1), ("dot", 1), ("brack", 2), ("seq", 2), ("arr", 1), ("obj", 1), ("fun", 1), ("leaf", 0), ("number", 0),
        ("regexp", 0), ("string", 0), ("newtarget", 0),
    ] {
        v.push((s.to_string(), *n));
    }
    v
}
fn dot_key(s: &str) -> DotKey {
    DotKey { location: None, value: s.to_string() }
}
fn build(form: &str, mut xs: Vec<Expr>) -> Expr {
    let mut next = || if xs.is_empty() { ident("z") } else { xs.remove(0) };
    let (kind, arg) = match form.find(' ') {
        Some(i) => (&form[..i], &form[i + 1..]),
        None => (form, ""),
    };
    let target = |s: &str| AssignTarget::Id(id(s));
    match (kind, arg) {
        ("binop", o) => {
            let t = astgen::BINOPS.iter().find(|t| ast::binop_text(t) == o).unwrap().clone();
            let a = Box::new(next());
            Expr::Binop(None, op(t), a, Box::new(next()))
        }
        ("logop", o) => {
            let t = astgen::LOGOPS.iter().find(|t| ast::logop_text(t) == o).unwrap().clone();
            let a = Box::new(next());
            Expr::Logop(None, op(t), a, Box::new(next()))
        }
        ("unop", o) => Expr::Unop(None, op(astgen::UNOPS.iter().find(|t| ast::unop_text(t) == o).unwrap().clone()), Box::new(next())),
        ("assop", o) => Expr::BinAssign(None, op(astgen::ASSOPS.iter().find(|t| ast::assop_text(t) == o).unwrap().clone()), target("t"), Box::new(next())),
        ("preinc", _) => Expr::PreInc(None, Box::new(target("t"))),
        ("postinc", "") => Expr::PostInc(None, Box::new(target("t"))),
        ("predec", "") => Expr::PreDec(None, Box::new(target("t"))),
        ("postdec", _) => Expr::PostDec(None, Box::new(target("t"))),
        ("postinc", _) => Expr::PostInc(None, Box::new(AssignTarget::Dot(None, Box::new(next()), dot_key("p")))),
        ("predec", _) => Expr::PreDec(None, Box::new(AssignTarget::Brack(None, Box::new(next()), Box::new(ident("i"))))),
        ("assign", "") => Expr::Assign(None, Patt::Simple(target("t")), Box::new(next())),
        ("assign", _) => Expr::Assign(None, Patt::Simple(AssignTarget::Dot(None, Box::new(next()), dot_key("p"))), Box::new(ident("v"))),
        ("cond", _) => {
            let a = Box::new(next());
            let b = Box::new(next());
            Expr::Cond(None, a, b, Box::new(next()))
        }
        ("call", "") => {
            let f = Box::new(next());
            Expr::Call(None, f, vec![ExprListItem::Expr(next())])
        }
        ("call", _) => Expr::Call(None, Box::new(ident("f")), vec![ExprListItem::Spread(None, next())]),
        ("new", "args") => {
            let f = Box::new(next());
            Expr::New(None, f, Some(vec![ExprListItem::Expr(next())]))
        }
        ("new", _) => Expr::New(None, Box::new(next()), None),
        ("dot", _) => Expr::Dot(None, Box::new(next()), dot_key("p")),
        ("brack", _) => {
            let o = Box::new(next());
            Expr::Brack(None, o, Box::new(next()))
        }
        ("seq", _) => {
            let a = next();
            Expr::Seq(None, vec![a, next()])
        }
        ("arr", _) => Expr::Arr(None, vec![Some(ExprListItem::Expr(next())), None]),
        ("obj", _) => Expr::Obj(None, vec![Prop::Regular(None, PropKey::Id(None, "k".to_string()), PropVal::Init(next()))]),
        ("fun", _) => Expr::Fun(Fun {
            location: None,
            id: None,
            params: Params { location: None, list: vec![], rest: None },
            body: body(vec![expr_stmt(next())]),
            generator: false,
        }),
        ("number", _) => Expr::Number(None, astgen::num_lit("1")),
        ("regexp", _) => Expr::RegExp(None, astgen::re_lit("/r/g")),
        ("string", _) => Expr::String(None, str_lit("'s'")),
        ("newtarget", _) => Expr::NewTarget(None),
        _ => ident("x"),
    }
}
fn slot(form: &(String, usize), i: usize, e: Expr) -> Expr {
    let v = (0..form.1).map(|k| if k == i { e.clone() } else { ident(["a", "b", "c"][k]) }).collect();
    build(&form.0, v)
}
/// Statements an expression can stand in: alone, in a for head, as the initialiser of one.
fn places(e: &Expr) -> Vec<Script> {
    let empty = || Box::new(Stmt::Empty(None));
    vec![
        body(vec![expr_stmt(e.clone())]),
        body(vec![StmtListItem::Stmt(Stmt::For(None, Some(Box::new(ForHead::Expr(None, e.clone()))), None, None, empty()))]),
        body(vec![StmtListItem::Stmt(Stmt::For(None, Some(Box::new(ForHead::Var(None, vec![Dtor::Simple(None, id("v"), Some(e.clone()))]))), None, None, empty()))]),
        body(vec![StmtListItem::Stmt(Stmt::ForOf(None, Box::new(ForOfHead::Var(None, Patt::Simple(id("v")))), e.clone(), empty()))]),
    ]
}
fn spaced(toks: &[print::Tok]) -> String {
    toks.iter().map(|t| t.text.clone()).collect::<Vec<_>>().join(" ")
}
fn c12_check(src: &mut Src, tree: Script, case: &mut Case) -> bool {
    let mut tree = tree;
    let toks = print::print(src, &mut tree, Style::plain());
    let text = spaced(&toks);
    match parse(Goal::Script, &text) {
        Ok(mut t) => {
            if let Some(d) = compare(&mut tree, &mut t, Detail::Value) {
                case.set_input(format!("{:?}", text));
                case.fail(d);
            }
        }
        Err(e) => {
            case.set_input(format!("{:?}", text));
            case.fail(format!("rejected: {:?}", e));
        }
    }
    !case.failed()
}
/// Every form inside every operand of every form inside every operand of every form.
fn c12_nest(src: &mut Src, case: &mut Case) {
    let fs = forms();
    let slots: Vec<(usize, usize)> = fs.iter().enumerate().flat_map(|(i, f)| (0..f.1).map(move |k| (i, k))).collect();
    let n = slots.len() as u64;
    let i = src.below(n * n);
    let (a, b) = (slots[(i / n) as usize], slots[(i % n) as usize]);
    case.set_input(format!("{} operand {} is {} operand {}", fs[a.0].0, a.1, fs[b.0].0, b.1));
    case.nontrivial = true;
    for f in &fs {
        let e = slot(&fs[a.0], a.1, slot(&fs[b.0], b.1, slot(f, 9, ident("x"))));
        for p in places(&e) {
            case.subcases += 1;
            if !c12_check(src, p, case) {
                return;
            }
        }
    }
}
pub fn c12_slots() -> u64 {
    forms().iter().map(|f| f.1 as u64).sum()
}

/// The tree of a chain of infix operators, by splitting at the loosest operator furthest right.
fn chain(ops: &[Expr], names: &[&str]) -> Expr {
    if ops.is_empty() {
        return ident(names[0]);
    }
    let lowest = ops.iter().map(level).min().unwrap();
    let k = ops.iter().rposition(|o| level(o) == lowest).unwrap();
    let a = Box::new(chain(&ops[..k], &names[..k + 1]));
    let b = Box::new(chain(&ops[k + 1..], &names[k + 1..]));
    match ops[k] {
        Expr::Binop(_, ref o, _, _) => Expr::Binop(None, o.clone(), a, b),
        Expr::Logop(_, ref o, _, _) => Expr::Logop(None, o.clone(), a, b),
        _ => unreachable!(),
    }
}
fn infix() -> Vec<Expr> {
    let z = || Box::new(ident("z"));
    let mut v: Vec<Expr> = astgen::BINOPS.iter().map(|t| Expr::Binop(None, op(t.clone()), z(), z())).collect();
    v.extend(astgen::LOGOPS.iter().map(|t| Expr::Logop(None, op(t.clone()), z(), z())));
    v
}
fn infix_text(e: &Expr) -> &'static str {
    match *e {
        Expr::Binop(_, ref o, _, _) => ast::binop_text(&o.tag),
        Expr::Logop(_, ref o, _, _) => ast::logop_text(&o.tag),
        _ => unreachable!(),
    }
}
static NAMES: &[&str] = &["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p"];
fn c12_chain_check(ops: &[Expr], case: &mut Case) -> bool {
    let mut text = NAMES[0].to_string();
    for (o, n) in ops.iter().zip(&NAMES[1..]) {
        text.push_str(&format!(" {} {}", infix_text(o), n));
    }
    let mut want = body(vec![expr_stmt(chain(ops, NAMES))]);
    let fail = match parse(Goal::Script, &text) {
        Ok(mut t) => compare(&mut want, &mut t, Detail::Value),
        Err(e) => Some(format!("rejected: {:?}", e)),
    };
    if let Some(f) = fail {
        case.set_input(format!("{:?}", text));
        case.fail(f);
    }
    !case.failed()
}
/// Every chain of three infix operators, and of four by the last one.
fn c12_chain3(src: &mut Src, case: &mut Case) {
    let fs = infix();
    let n = fs.len() as u64;
    let i = src.below(n * n * n);
    let ops: Vec<Expr> = [i / n / n, i / n % n, i % n].iter().map(|&k| fs[k as usize].clone()).collect();
    case.nontrivial = true;
    case.set_input(ops.iter().map(infix_text).collect::<Vec<_>>().join(" "));
    if !c12_chain_check(&ops, case) {
        return;
    }
    for f in &fs {
        let mut o = ops.clone();
        o.push(f.clone());
        case.subcases += 1;
        if !c12_chain_check(&o, case) {
            return;
        }
    }
}
fn c12_long(src: &mut Src, case: &mut Case) {
    let fs = infix();
    let n = src.usize(4, NAMES.len() - 1);
    let ops: Vec<Expr> = (0..n).map(|_| src.pick(&fs).clone()).collect();
    case.nontrivial = true;
    case.set_input(ops.iter().map(infix_text).collect::<Vec<_>>().join(" "));
    c12_chain_check(&ops, case);
}
/// Generated expressions with only the parentheses they need.
fn c12_random(src: &mut Src, case: &mut Case) {
    let mut o = Opts::new(Goal::Script, src.range(3, 40));
    o.plain = true;
    let e = Gen::new(src, o).expr();
    let k = src.below(4) as usize;
    let mut m = lay(src, Goal::Script, places(&e).swap_remove(k), Style::plain(), &Lay::explicit());
    case.set_input(m.input());
    case.nontrivial = m.toks.len() > 5;
    expect(&mut m, Detail::Source, case);
}
/// An in operator that needs brackets in a for head is rejected without them.
fn c12_bare_in(src: &mut Src, case: &mut Case) {
    let mut o = Opts::new(Goal::Script, src.range(3, 16));
    o.plain = true;
    let e = Gen::new(src, o).expr();
    let e = if src.bool() { Expr::Binop(None, op(BinopTag::In), Box::new(e), Box::new(ident("b"))) } else { e };
    let toks = |no_in: bool, src: &mut Src| {
        let mut p = Printer::new(src, Style::plain());
        p.expr(&mut e.clone(), if no_in { 1 } else { 1 }, no_in);
        p.toks
    };
    let (a, b) = (toks(true, src), toks(false, src));
    let exposed = a.len() != b.len();
    let (bare, safe) = (spaced(&b), spaced(&a));
    let head = *src.pick(&["for ( ", "for ( var v = ", "for ( let v = ", "for ( const v = ", "for ( var v, w = "]);
    let bare = format!("{}{} ; ; ) ;", head, bare);
    let safe = format!("{}{} ; ; ) ;", head, safe);
    case.set_input(format!("{:?}", bare));
    case.nontrivial = exposed;
    if head == "for ( " && bare.starts_with("for ( let") {
        return;
    }
    if let Err(e) = parse(Goal::Script, &safe) {
        case.set_input(format!("{:?}", safe));
        case.fail(format!("rejected: {:?}", e));
        return;
    }
    match parse(Goal::Script, &bare) {
        Ok(_) if exposed => case.fail("a bare in operator is accepted in a for head"),
        Err(ref e) if !exposed => case.fail(format!("rejected: {:?}", e)),
        _ => {}
    }
}

// ------------------------------------------------------------------ C13

fn c13_places(src: &mut Src, case: &mut Case) {
    let goal = astgen::goal(src);
    let mut opts = Opts::new(goal, src.range(2, 40));
    opts.plain = true;
    let style = Style::any(src);
    let mut lay = Lay::any(src);
    lay.omit = 5;
    let mut m = make(src, opts, style, &lay);
    case.set_input(m.input());
    case.nontrivial = m.laid.omitted.iter().any(|o| *o);
    expect(&mut m, Detail::Full, case);
}
/// The token an error blames.
pub fn blamed(e: &Error) -> Option<&Token> {
    match *e {
        Error::UnexpectedToken(ref t) | Error::FailedASI(ref t) | Error::OrphanTry(ref t) => Some(t),
        _ => None,
    }
}
/// A terminator left out where nothing stands in for it.
fn c13_missing(src: &mut Src, case: &mut Case) {
    let goal = astgen::goal(src);
    let mut opts = Opts::new(goal, src.range(4, 40));
    opts.plain = true;
    let mut tree = Gen::new(src, opts).program();
    let style = Style::any(src);
    let toks = print::print(src, &mut tree, style);
    let slots: Vec<usize> = (0..toks.len())
        .filter(|&i| match toks[i].slot {
            Some(Slot::DoWhile) | None => false,
            Some(_) => {
                print::omittable(&toks, i) == Some(true)
                    && !["return", "break", "continue"].contains(&toks[i - 1].text.as_str())
            }
        })
        .collect();
    if slots.is_empty() {
        case.set_input(spaced(&toks));
        return;
    }
    let gone = *src.pick(&slots);
    let mut text = String::new();
    let mut next = 0;
    for (i, t) in toks.iter().enumerate() {
        if i == gone {
            continue;
        }
        if i == gone + 1 {
            next = text.chars().count();
        }
        text.push_str(&t.text);
        text.push_str(if i + 1 != gone { " " } else { *src.pick(&[" ", " ", "/* x */"]) });
    }
    case.set_input(format!("{:?} {:?}, missing before offset {}", goal, text, next));
    case.nontrivial = true;
    let after = &toks[gone + 1].text;
    match parse(goal, &text) {
        Ok(_) => case.fail("accepted without the terminator"),
        Err(e) => {
            if after != "++" && after != "--" {
                match e {
                    Error::FailedASI(ref t) if t.location.start.offset as usize == next => {}
                    _ => case.fail(format!("the error is not a failed insertion at the token where a terminator is missing: {:?}", e)),
                }
            }
        }
    }
}
/// A line terminator where the grammar allows none never leaves the statement as it was.
fn c13_restricted(src: &mut Src, case: &mut Case) {
    let kw = src.below(5);
    let mut o = Opts::new(Goal::Script, src.range(1, 12));
    o.plain = true;
    let mut e = Gen::new(src, o.clone()).expr();
    let label = id("l");
    let semi = || Semi::Explicit(None);
    let stmt = match kw {
        0 => Stmt::Return(None, Some(e.clone()), semi()),
        1 => Stmt::Throw(None, e.clone(), semi()),
        2 => Stmt::Break(None, Some(label.clone()), semi()),
        3 => Stmt::Cont(None, Some(label.clone()), semi()),
        _ => {
            let t = Gen::new(src, o).target();
            let x = if src.bool() { Expr::PostInc(None, Box::new(t)) } else { Expr::PostDec(None, Box::new(t)) };
            e = x.clone();
            Stmt::Expr(None, x, semi())
        }
    };
    let wrap = |v: Vec<Stmt>| {
        let inner = Stmt::Block(Block { location: None, items: v.into_iter().map(StmtListItem::Stmt).collect() });
        let lp = Stmt::Label(None, id("l"), Box::new(Stmt::While(None, ident("w"), Box::new(inner))));
        body(vec![StmtListItem::Decl(Decl::Fun(Fun {
            location: None,
            id: id("f"),
            params: Params { location: None, list: vec![], rest: None },
            body: body(vec![StmtListItem::Stmt(lp)]),
            generator: false,
        }))])
    };
    let mut whole = wrap(vec![stmt]);
    let toks = print::print(src, &mut whole, Style::plain());
    // the outermost restricted token of the statement; for postfix operators the last
    let stuck: Vec<usize> = (0..toks.len()).filter(|&i| toks[i].stuck).collect();
    let at = if kw == 4 { *stuck.last().unwrap() } else { stuck[0] };
    let nl = *src.pick(&["\n", "\r", "\r\n", "\u{2028}", "\u{2029}", "/*\n*/", "// c\n", " \n "]);
    let text: String = toks.iter().enumerate().map(|(i, t)| if i == at { format!("{} {} ", nl, t.text) } else { format!("{} ", t.text) }).collect();
    case.set_input(format!("{:?}", text));
    case.nontrivial = true;
    let got = parse(Goal::Script, &text);
    if kw == 1 || kw == 4 {
        match (kw, got) {
            (1, Err(Error::ThrowArgument(_))) => {}
            (4, Err(_)) => {}
            (_, r) => case.fail(format!("expected a rejection, got {:?}", r)),
        }
        return;
    }
    // the operand becomes a statement of its own
    let tail = match kw {
        0 => Stmt::Expr(None, e, semi()),
        _ => Stmt::Expr(None, Expr::Id(label), semi()),
    };
    let head = match kw {
        0 => Stmt::Return(None, None, semi()),
        2 => Stmt::Break(None, None, semi()),
        _ => Stmt::Cont(None, None, semi()),
    };
    let mut want = wrap(vec![head, tail.clone()]);
    // an operand that starts like a statement of another kind does not stand as it is
    let mut alone = wrap(vec![tail]);
    let parens = print::print(src, &mut alone, Style::plain()).iter().filter(|t| t.paren).count() != toks.iter().filter(|t| t.paren).count();
    if parens {
        case.nontrivial = false;
        return;
    }
    match got {
        Ok(mut t) => {
            if let Some(d) = compare(&mut want, &mut t, Detail::Source) {
                case.fail(d);
            }
        }
        Err(e) => case.fail(format!("rejected: {:?}", e)),
    }
}

// ------------------------------------------------------------------ C14

/// A program with jumps and labels planted in it.
pub fn c14_tree(src: &mut Src) -> (Goal, Script) {
    let goal = astgen::goal(src);
    let mut opts = Opts::new(goal, src.range(4, 50));
    opts.plain = true;
    let mut tree = Gen::new(src, opts).program();
    let rate = *src.pick(&[0, 1, 3]);
    let labels = ["l", "m", "n"];
    scope::run(&mut tree, false, |at, cx| match at {
        At::Stmt(s) => {
            let simple = match *s {
                Stmt::Debugger(..) | Stmt::Empty(_) | Stmt::Break(..) | Stmt::Cont(..) => true,
                Stmt::Expr(..) => src.chance(1, 2),
                _ => false,
            };
            if simple && src.chance(rate, 6) {
                let l = if src.bool() {
                    Some(if !cx.labels.is_empty() && src.chance(3, 4) { src.pick(&cx.labels).0.clone() } else { src.pick(&labels).to_string() })
                } else {
                    None
                };
                let l = l.map(|l| id(&l));
                *s = match src.below(5) {
                    0 | 1 => Stmt::Break(None, l, Semi::Explicit(None)),
                    2 | 3 => Stmt::Cont(None, l, Semi::Explicit(None)),
                    _ => Stmt::Return(None, None, Semi::Explicit(None)),
                };
            } else if simple && src.chance(rate, 12) {
                let old = std::mem::replace(s, Stmt::Empty(None));
                *s = Stmt::Label(None, id(*src.pick(&labels)), Box::new(old));
            }
        }
        At::Id(i, Role::Label) => {
            if src.chance(rate, 12) {
                *i = id(*src.pick(&labels));
            }
        }
        _ => {}
    });
    (goal, tree)
}
fn c14_jumps(src: &mut Src, case: &mut Case) {
    let (goal, mut tree) = c14_tree(src);
    let breach = scope::jump_breach(&mut tree);
    let style = Style::any(src);
    let l = Lay::any(src);
    let mut m = lay(src, goal, tree, style, &l);
    case.set_input(m.input());
    struct Jumps(u32);
    impl Vis for Jumps {
        fn open(&mut self, k: &'static str) {
            if ["Break", "Cont", "Return", "Label"].contains(&k) {
                self.0 += 1;
            }
        }
    }
    let mut j = Jumps(0);
    m.tree.walk(&mut j);
    case.nontrivial = j.0 > 0;
    match breach {
        None => {
            case.class("every jump has its target");
            expect(&mut m, Detail::Source, case);
        }
        Some(b) => {
            case.class(b.split(' ').next().unwrap().to_string() + " breach");
            match parse(goal, &m.laid.text) {
                Ok(_) => case.fail(format!("accepted despite {}", b)),
                Err(Error::InvalidLabel(_)) | Err(Error::InvalidLabelType(_)) | Err(Error::IllegalBreak(_)) | Err(Error::IllegalContinue(_)) | Err(Error::TopLevelReturn(_)) => {}
                Err(e) => case.fail(format!("{}, but the error is {:?}", b, e)),
            }
        }
    }
}
/// What an enclosing part means for the jumps in it: L and M label what
/// follows, O is a loop, S a switch, P any other statement that takes the
/// labels before it, F a function body.
static NESTS: &[(&str, &str, &str)] = &[
    ("while (w) {", "}", "O"), ("do {", "} while (w)", "O"), ("for (;;) ", "", "O"), ("for (k in o) ", "", "O"), ("for (k of o) ", "", "O"),
    ("for (var q in o) ", "", "O"), ("for (const q of o) ", "", "O"), ("for (let q;;) ", "", "O"), ("do ", " while (w)", "O"),
    ("switch (s) { case 1:", "}", "S"), ("switch (s) { default:", "}", "S"), ("{", "}", "P"), ("if (c) ", "", "P"), ("if (c) ; else ", "", "P"),
    ("try {", "} finally {}", "P"), ("try {} catch (e) {", "}", "P"), ("try {} finally {", "}", "P"), ("with (o) ", "", "P"), ("l: ", "", "L"), ("m: ", "", "M"), ("l: m: ", "", "LM"),
    ("(function () {", "});", "F"), ("function g() {", "}", "F"), ("({ get a() {", "} });", "F"), ("({ set a(v) {", "} });", "F"), ("x = { m() {", "} };", "F"), ("(function* () {", "});", "F"),
    ("l: for (;;) ", "", "LO"), ("l: m: while (w) ", "", "LMO"), ("l: { m: for (;;) ", "}", "LPMO"), ("switch (s) { default: while (w) {} l: ", "}", "SL"),
    ("for (var q = function () {", "}; ;) ;", "F"), ("while (function () {", "}) ;", "F"), ("switch (function () {", "}) {}", "F"), ("switch (s) { case function () {", "}: }", "F"),
    ("l: { n: { } ", "}", "LP"),
    // what is over before the jump
    ("switch (s) { default: switch (t) {} ", "}", "S"), ("switch (s) { case 1: while (w) {} ", "}", "S"), ("while (w) { switch (s) {} ", "}", "O"), ("l: { switch (t) { default: } ", "}", "LP"),
    ("function g() { while (w) {} ", "}", "F"), ("function g() { switch (s) {} ", "}", "F"), ("{ while (w) switch (s) {} ", "}", "P"), ("switch (s) { case 1: (function () {}); ", "}", "S"),
    ("while (w) { (function () {}); ", "}", "O"), ("l: m: { x = { m() { while (w); } }; ", "}", "LMP"), ("switch (s) { case 1: { switch (t) { case 2: } } case 3: ", "}", "S"),
];
static JUMPS: &[&str] = &["break;", "continue;", "break l;", "continue l;", "break m;", "continue m;", "return;", "return x;", "l: ;", "m: while (w) continue m;"];
fn c14_nests(src: &mut Src, case: &mut Case) {
    let n = NESTS.len() as u64;
    let i = src.below(n * n * n);
    let ns = [NESTS[(i / n / n) as usize], NESTS[(i / n % n) as usize], NESTS[(i % n) as usize]];
    case.set_input(ns.iter().map(|n| n.0).collect::<Vec<_>>().join(" "));
    case.nontrivial = true;
    // whether a declaration may be the body of a statement is no matter of jumps
    for k in 1..3 {
        let before = ns[k - 1].0;
        if ns[k].0.starts_with("function") && !(before.ends_with("{") || before.ends_with(":") || before.ends_with("} ")) {
            case.nontrivial = false;
            return;
        }
    }
    for j in JUMPS {
        let text = format!("{}{}{} {} {}{}{}", ns[0].0, ns[1].0, ns[2].0, j, ns[2].1, ns[1].1, ns[0].1);
        case.subcases += 1;
        let (mut function, mut iteration, mut switch, mut ok) = (false, false, false, true);
        // the labels, and whether each labels a loop; the last of them still pending
        let mut labels: Vec<(char, bool)> = vec![];
        let mut pending = 0;
        for op in ns.iter().flat_map(|n| n.2.chars()) {
            match op {
                'L' | 'M' => {
                    ok &= !labels.iter().any(|l| l.0 == op);
                    labels.push((op, false));
                    pending += 1;
                    continue;
                }
                'O' => {
                    iteration = true;
                    let k = labels.len() - pending;
                    for l in &mut labels[k..] {
                        l.1 = true;
                    }
                }
                'S' => switch = true,
                'F' => {
                    function = true;
                    iteration = false;
                    switch = false;
                    labels.clear();
                }
                _ => {}
            }
            pending = 0;
        }
        let has = |l: char, lp: bool| labels.iter().any(|x| x.0 == l && (!lp || x.1));
        ok &= match *j {
            "break;" => iteration || switch,
            "continue;" => iteration,
            "break l;" => has('L', false),
            "break m;" => has('M', false),
            "continue l;" => has('L', true),
            "continue m;" => has('M', true),
            "return;" | "return x;" => function,
            "l: ;" => !has('L', false),
            _ => !has('M', false),
        };
        match (ok, parse(Goal::Script, &text)) {
            (true, Err(e)) => {
                case.set_input(format!("{:?}", text));
                case.fail(format!("rejected: {:?}", e));
                return;
            }
            (false, Ok(_)) => {
                case.set_input(format!("{:?}", text));
                case.fail("accepted");
                return;
            }
            _ => {}
        }
    }
}

// ------------------------------------------------------------------ C15

/// A program with restricted words planted in it.
pub fn c15_tree(src: &mut Src) -> Script {
    let mut opts = Opts::new(Goal::Module, src.range(3, 50));
    opts.plain = true;
    let mut tree = Gen::new(src, opts).program();
    let (mut ids, mut stmts) = (0u64, 0u64);
    scope::run(&mut tree, false, |at, _| match at {
        At::Id(..) => ids += 1,
        At::Stmt(_) => stmts += 1,
        _ => {}
    });
    let words: &[&str] = &["implements", "interface", "let", "package", "private", "protected", "public", "static", "yield", "eval", "arguments", "await"];
    for _ in 0..1 + src.count(1, 2) {
        let n = src.below(ids + 1);
        let w = *src.pick(words);
        let mut k = 0;
        scope::run(&mut tree, false, |at, cx| {
            if let At::Id(i, r) = at {
                k += 1;
                // a lexical binding named let, and yield in a generator, are wrong in sloppy code too
                if k == n && !(w == "let" && r == Role::Lexical) && !(w == "yield" && cx.generator) && !(r == Role::Label && cx.labels.iter().any(|l| l.0 == w)) {
                    *i = id(w);
                }
            }
        });
    }
    if src.chance(1, 4) {
        let n = src.below(stmts + 1);
        let mut k = 0;
        scope::run(&mut tree, false, |at, _| {
            if let At::Stmt(s) = at {
                k += 1;
                if k == n {
                    if let Stmt::Expr(..) | Stmt::Debugger(..) | Stmt::Empty(_) = *s {
                        let old = std::mem::replace(s, Stmt::Empty(None));
                        *s = Stmt::With(None, ident("o"), Box::new(old));
                    }
                }
            }
        });
    }
    tree
}
fn c15_strict(src: &mut Src, case: &mut Case) {
    let mut tree = c15_tree(src);
    if scope::jump_breach(&mut tree).is_some() {
        // renaming took a jump's label away
        case.set_input("(jump rules)".to_string());
        return;
    }
    let style = Style::any(src);
    let mut l = Lay::any(src);
    l.html = false;
    let mut m = lay(src, Goal::Script, tree, style, &l);
    case.set_input(format!("{:?}", m.laid.text));
    case.nontrivial = true;
    for &goal in &[Goal::Script, Goal::Strict, Goal::Module] {
        let breach = scope::strict_breach(&mut m.tree, goal != Goal::Script, goal == Goal::Module);
        match (breach, parse(goal, &m.laid.text)) {
            (Breach::Open, _) => case.class(format!("{:?} open", goal)),
            (Breach::No, Ok(mut t)) => {
                case.class(format!("{:?} accepted", goal));
                if let Some(d) = compare(&mut m.tree, &mut t, Detail::Source) {
                    case.fail(format!("{:?}: {}", goal, d));
                }
            }
            (Breach::Yes(b), Err(e)) => {
                case.class(format!("{:?} {}", goal, b));
                match e {
                    Error::ContextualKeyword(..) | Error::IllegalStrictBinding(..) | Error::StrictWith(_) => {}
                    e => case.fail(format!("{:?}: {}, but the error is {:?}", goal, b, e)),
                }
            }
            (Breach::Yes(b), Ok(_)) => case.fail(format!("{:?}: accepted despite {}", goal, b)),
            (Breach::No, Err(e)) => case.fail(format!("{:?}: rejected: {:?}", goal, e)),
        }
    }
}
/// Property names are never restricted: every word in every place of a name.
fn c15_names(src: &mut Src, case: &mut Case) {
    let words: Vec<&str> = crate::tok::RESERVED.iter().map(|r| r.0).chain(crate::tok::ATOMS.iter().map(|a| a.0)).collect();
    let w = words[src.below(words.len() as u64) as usize];
    case.set_input(w.to_string());
    case.nontrivial = true;
    let forms = [
        "x.W;", "x.W = 1;", "({ W: 1 });", "({ get W() {} });", "({ set W(v) {} });", "({ W() {} });", "({ *W() {} });", "({ W: a } = b);", "x.W();", "new x.W;", "x.W++;",
        "'use strict'; x.W;", "function f() { 'use strict'; return { W: 1, W() {} }.W }", "({ W : W1 });", "x\n.W\n;", "({ get: 1, W: 2, set: 3 });", "delete x.W;", "for (x.W in o) ;", "for (x.W of o) ;",
    ];
    for f in &forms {
        let t = f.replace("W", w);
        for &g in &[Goal::Script, Goal::Strict, Goal::Module] {
            case.subcases += 1;
            if let Err(e) = parse(g, &t) {
                case.set_input(format!("{:?} {:?}", g, t));
                case.fail(format!("rejected: {:?}", e));
                return;
            }
        }
    }
}

// ------------------------------------------------------------------ C16

fn same_result(a: &Result<Script, Error>, b: &Result<Script, Error>) -> Option<String> {
    match (a, b) {
        (Ok(a), Ok(b)) => compare(&mut a.clone(), &mut b.clone(), Detail::Full),
        (Err(_), Err(_)) => None,
        (Ok(_), Err(e)) => Some(format!("accepted directly, but rejected later: {:?}", e)),
        (Err(e), Ok(_)) => Some(format!("accepted later, but rejected directly: {:?}", e)),
    }
}
fn c16_agree(text: &str, case: &mut Case) {
    let direct: Vec<Result<Script, Error>> = [Goal::Script, Goal::Strict, Goal::Module].iter().map(|&g| parse(g, text)).collect();
    for (i, &g) in [Goal::Script, Goal::Strict, Goal::Module].iter().enumerate() {
        if let Some(d) = same_result(&direct[i], &parse_later(g, text)) {
            case.fail(format!("{:?}: {}", g, d));
        }
    }
    for i in 0..2 {
        if let Ok(ref a) = direct[i + 1] {
            match direct[i] {
                Ok(ref b) => {
                    if let Some(d) = compare(&mut a.clone(), &mut b.clone(), Detail::Full) {
                        case.fail(format!("the stricter goal gives another tree: {}", d));
                    }
                }
                Err(ref e) => case.fail(format!("accepted by the stricter goal only: {:?}", e)),
            }
        }
    }
    case.class(match (direct[0].is_ok(), direct[1].is_ok(), direct[2].is_ok()) {
        (true, true, true) => "accepted for every goal",
        (true, true, false) => "accepted for scripts only",
        (true, false, false) => "accepted for sloppy scripts only",
        _ => "rejected",
    });
    case.nontrivial = direct[0].is_ok() && text.len() > 4 || text.len() > 12;
}
fn out_of_16(text: &str) -> bool {
    text.contains("import") || text.contains("export") || text.contains("use module")
}
fn c16_any(src: &mut Src, case: &mut Case) {
    let text = any_text(src, case);
    case.set_input(format!("{:?}", text));
    if !out_of_16(&text) {
        c16_agree(&text, case);
    }
}
/// Programs full of what only strict code forbids.
fn c16_strict(src: &mut Src, case: &mut Case) {
    let mut opts = Opts::new(Goal::Module, src.range(3, 40));
    opts.plain = true;
    let mut tree = Gen::new(src, opts).program();
    let rate = *src.pick(&[1, 3, 8]);
    scope::run(&mut tree, false, |at, _| match at {
        At::Id(i, r) => {
            if src.chance(1, rate * 4) {
                *i = id(*src.pick(&["implements", "let", "static", "yield", "eval", "arguments", "await", "await"]));
                if r == Role::Lexical && i.name.as_ref() == "let" {
                    *i = id("await");
                }
            }
        }
        At::Stmt(s) => {
            if src.chance(1, rate * 8) {
                if let Stmt::Expr(..) | Stmt::Debugger(..) | Stmt::Empty(_) = *s {
                    let old = std::mem::replace(s, Stmt::Empty(None));
                    *s = Stmt::With(None, ident("o"), Box::new(old));
                }
            }
        }
        _ => {}
    });
    let style = Style::any(src);
    let mut l = Lay::any(src);
    l.html = false;
    let m = lay(src, Goal::Script, tree, style, &l);
    case.set_input(format!("{:?}", m.laid.text));
    c16_agree(&m.laid.text, case);
}

// ------------------------------------------------------------------ C17

fn c17_exact(src: &mut Src, case: &mut Case) {
    let goal = astgen::goal(src);
    let mut opts = Opts::new(goal, src.range(2, 40));
    opts.plain = true;
    let style = Style::any(src);
    let mut lay = Lay::any(src);
    if src.bool() {
        lay.spacing = Spacing::Wild;
    }
    let mut m = make(src, opts, style, &lay);
    case.set_input(m.input());
    kinds(&mut m.tree, case);
    case.nontrivial = m.toks.len() > 3;
    expect(&mut m, Detail::Full, case);
}

/// Locations of a tree nest, follow each other, and start and end with tokens.
struct Nest<'a> {
    /// the location of every open node, and where its last part ended
    stack: Vec<(Option<Span>, u32, &'static str)>,
    fresh: bool,
    chars: &'a [char],
    bad: Option<String>,
}
impl<'a> Nest<'a> {
    fn bad(&mut self, s: String) {
        if self.bad.is_none() {
            self.bad = Some(s);
        }
    }
}
impl<'a> Vis for Nest<'a> {
    fn open(&mut self, k: &'static str) {
        self.stack.push((None, 0, k));
        self.fresh = true;
    }
    fn close(&mut self) {
        self.stack.pop();
        self.fresh = false;
    }
    fn loc(&mut self, l: &mut Option<Span>) {
        let s = match *l {
            Some(s) => s,
            None => {
                let k = self.stack.last().map(|x| x.2);
                return self.bad(format!("{:?} has no location", k));
            }
        };
        if !self.fresh {
            return;
        }
        self.fresh = false;
        let top = self.stack.len() - 1;
        self.stack[top].0 = Some(s);
        self.stack[top].1 = s.start.offset;
        let kind = self.stack[top].2;
        let (a, b) = (s.start.offset as usize, s.end.offset as usize);
        if a > b || b > self.chars.len() {
            return self.bad(format!("{} spans {}..{}", kind, a, b));
        }
        if a < b {
            let blank = |c: char| c.is_whitespace() || c == '\u{feff}';
            if blank(self.chars[a]) || blank(self.chars[b - 1]) {
                return self.bad(format!("{} at {}..{} begins or ends with white space", kind, a, b));
            }
        }
        // the nearest enclosing node with a location
        if let Some(p) = (0..top).rev().find(|&p| self.stack[p].0.is_some()) {
            let outer = self.stack[p].0.unwrap();
            let pk = self.stack[p].2;
            if s.start.offset < outer.start.offset || s.end.offset > outer.end.offset {
                return self.bad(format!("{} at {}..{} sticks out of {} at {}..{}", kind, a, b, pk, outer.start.offset, outer.end.offset));
            }
            if s.start.offset < self.stack[p].1 {
                return self.bad(format!("{} at {}..{} begins before the part that precedes it in {} ends, at {}", kind, a, b, pk, self.stack[p].1));
            }
            self.stack[p].1 = s.end.offset;
        }
    }
}
fn nested(t: &mut Script, chars: &[char]) -> Option<String> {
    let mut n = Nest { stack: vec![], fresh: false, chars, bad: None };
    t.walk(&mut n);
    n.bad
}
/// Whatever is accepted has locations that nest.
fn c17_nest(src: &mut Src, case: &mut Case) {
    let text = any_text(src, case);
    case.set_input(format!("{:?}", text));
    if text.contains("export") {
        return;
    }
    let goal = astgen::goal(src);
    if let Ok(mut t) = parse(goal, &text) {
        case.class("accepted");
        case.nontrivial = text.len() > 4;
        let cs: Vec<char> = text.chars().collect();
        if let Some(b) = nested(&mut t, &cs) {
            case.fail(format!("{:?}: {}", goal, b));
        }
    }
}

// ------------------------------------------------------------------ C18

fn c18_total(text: &str, case: &mut Case) {
    let a = [esprit::script(text).is_ok(), esprit::strict(text).is_ok(), esprit::module(text).is_ok()];
    let p = esprit::program(text);
    if let Ok(p) = p {
        let _ = p.clone().script();
        let _ = p.clone().strict();
        let _ = p.module();
    }
    case.class(if a.iter().any(|x| *x) { "accepted" } else { "rejected" });
    case.nontrivial = text.len() > 4;
}
fn c18_any(src: &mut Src, case: &mut Case) {
    let text = any_text(src, case);
    case.set_input(format!("{:?}", text));
    c18_total(&text, case);
}
fn c18_phrases(src: &mut Src, case: &mut Case) {
    let text = crate::acornprops::phrase_text(src);
    case.set_input(format!("{:?}", text));
    c18_total(&text, case);
}
/// All short sequences of phrases that belong together, alone and inside another such construct.
fn c18_kin(src: &mut Src, case: &mut Case) {
    let (text, inside) = crate::acornprops::kin_text(src);
    case.set_input(format!("{:?}", text));
    case.nontrivial = true;
    for &(a, b) in &inside {
        let t = format!("{}{}{}", a, text, b);
        case.subcases += 1;
        if let Err(e) = catch(|| (esprit::script(&t).is_ok(), esprit::module(&t).is_ok())) {
            case.set_input(format!("{:?}", t));
            case.fail(e);
            return;
        }
    }
}
fn c18_soup(src: &mut Src, case: &mut Case) {
    let text = match src.below(3) {
        0 => crate::lexgen::soup(src, true),
        _ => soup(src),
    };
    // errors must be printable too
    case.set_input(format!("{:?}", text));
    c18_total(&text, case);
    if let Err(e) = esprit::script(&text) {
        let _ = format!("{} {:?}", e, e);
    }
}
static C18_WORDS: &[&str] = &[
    "a", "let", "of", "in", "new", "function", "for", "(", ")", "[", "]", "{", "}", ";", ",", ":", "=", "++", "=>", ".", "...", "*", "/", "'s'", "0", "get", "import", "export", "class",
    "try", "catch", "default", "case", "if", "else", "do", "while", "return", "var", "const", "\n", "yield", "super", "break", "switch", "?", "+",
];
/// Every sequence of four tokens of a small vocabulary.
fn c18_short(src: &mut Src, case: &mut Case) {
    let n = C18_WORDS.len() as u64;
    let i = src.below(n * n * n);
    let head = format!("{} {} {}", C18_WORDS[(i / n / n) as usize], C18_WORDS[(i / n % n) as usize], C18_WORDS[(i % n) as usize]);
    case.set_input(format!("{:?} and one more", head));
    case.nontrivial = true;
    for w in C18_WORDS {
        let text = format!("{} {}", head, w);
        case.subcases += 1;
        if let Err(e) = catch(|| (esprit::script(&text).is_ok(), esprit::program(&text).is_ok())) {
            case.set_input(format!("{:?}", text));
            case.fail(e);
            return;
        }
    }
}
static UNSUPPORTED: &[&str] = &[
    "import 'x'", "import a from 'x'", "import * as a from 'x'", "import { a } from 'x'", "export var a", "export default 1", "export { a }", "export * from 'x'", "export function f() {}",
    "class A {}", "class A extends B {}", "x = class {}", "`t`", "`a${b}c`", "f`t`", "a => b", "(a) => b", "(a, b) => { }", "async () => x", "x = a => b", "let { a } = b", "var [a] = b",
    "const { a, b } = c", "function f({ a }) {}", "function f([a]) {}", "function f(a = 1) {}", "try {} catch ({ e }) {}", "({ [a]: 1 })", "({ a = 1 } = b)", "[a = 1] = b", "super.x", "super()",
    "function* g() { yield x }", "function* g() { yield* x }", "async function f() {}", "a ** b", "a?.b", "a ?? b", "for await (a of b) ;", "for (let { a } of b) ;", "for (var [a] in b) ;", "enum A {}",
    "({ async f() {} })", "({ ...a })", "new.foo", "x = import('y')", "1n", "({ get [a]() {} })", "try {} catch {}", "if (a) function f() {}", "l: function f() {}", "a ||= b", "#x in y",
    "for (const [a, b] = c;;) ;", "for (let [a] = c;;) ;", "(a, b = 1) => c", "({ set a({ b }) {} })", "({ set a([b]) {} })", "function f(...[a]) {}", "(function* () { var a = yield })",
];
/// Unsupported syntax, alone and inside supported programs.
fn c18_unsupported(src: &mut Src, case: &mut Case) {
    let i = src.below(UNSUPPORTED.len() as u64) as usize;
    let u = UNSUPPORTED[i];
    case.set_input(format!("{:?}", u));
    case.nontrivial = true;
    for (a, b) in &[("", ""), ("'use strict';", ""), ("{ ", " }"), ("a;\n", "\n;b"), ("function f() { ", " }"), ("if (x) ", ""), ("var a = function () { ", " };"), ("while (x) { ", "\n}")] {
        let text = format!("{}{}{}", a, u, b);
        case.subcases += 1;
        let r = catch(|| [esprit::script(&text).is_err(), esprit::strict(&text).is_err(), esprit::module(&text).is_err(), esprit::program(&text).is_err()]);
        match r {
            Ok(e) if e.iter().all(|x| *x) => {}
            Ok(e) => {
                case.set_input(format!("{:?}", text));
                case.fail(format!("accepted as script, strict, module or program: {:?} rejected", e));
                return;
            }
            Err(e) => {
                case.set_input(format!("{:?}", text));
                case.fail(e);
                return;
            }
        }
    }
}
static DEEP: &[(&str, &str, &str)] = &[
    ("(", "a", ")"), ("[", "", "]"), ("({a:", "1", "})"), ("{", "", "}"), ("if(a)", ";", ""), ("if(a);else ", ";", ""), ("while(a)", ";", ""), ("for(;;)", ";", ""), ("-", "a", ""), ("!", "a", ""),
    ("new ", "a", ""), ("a=", "b", ""), ("a?", "b", ":c"), ("a?b:", "c", ""), ("(function(){", "", "})"), ("a(", "b", ")"), ("a[", "b", "]"), ("a+(", "b", ")"), ("do ", ";", " while(a)"), ("try{", "", "}finally{}"),
    ("switch(a){case 1:", "", "}"), ("with(a)", ";", ""), ("a.b[", "c", "].d"), ("[...", "a", "]"), ("f(...", "a", ")"), ("({get a(){", "", "}})"), ("x={m(){", "", "}};"), ("", "a", "++"), ("", "a", "()"), ("", "a", ".b"), ("a+", "b", ""),
    ("typeof ", "a", ""), ("function f(){", "", "}"), ("a,", "b", ""), ("l: for(;;){", "", "}"), ("[[", "a", "],]"), ("new new ", "a", "()"), ("", "'x'", ";"), ("({a:[", "b", "]}=c)"),
];
fn c18_deep(src: &mut Src, case: &mut Case) {
    let n = DEEP.len() as u64;
    let i = src.below(n * 12);
    let (d, cut) = (DEEP[(i / 12) as usize], i % 12);
    let depth = [1, 10, 100, 2000][(cut % 4) as usize];
    // closed, left open, and closed once too often
    let closers = match cut / 4 {
        0 => depth,
        1 => depth / 2,
        _ => depth + 1,
    };
    let text = format!("{}{}{}", d.0.repeat(depth), d.1, d.2.repeat(closers));
    case.set_input(format!("{:?} {:?} {:?} {} deep, {} closed", d.0, d.1, d.2, depth, closers));
    case.nontrivial = depth > 1;
    c18_total(&text, case);
}

/// The same text again, after other texts and on another thread.
fn c18_again(src: &mut Src, case: &mut Case) {
    let text = any_text(src, case);
    let others: Vec<(Goal, String)> = (0..1 + src.below(3)).map(|_| (astgen::goal(src), if src.bool() { any_text(src, case) } else { soup(src) })).collect();
    let goal = astgen::goal(src);
    case.set_input(format!("{:?} {:?}, between {:?}", goal, text, others));
    let first = parse(goal, &text);
    for o in &others {
        let _ = parse(o.0, &o.1);
        let _ = esprit::program(&o.1);
    }
    let second = parse(goal, &text);
    let mut all = vec![second];
    if src.chance(1, 4) {
        let t = text.clone();
        let handle = std::thread::Builder::new().stack_size(64 << 20).spawn(move || catch(|| parse(goal, &t))).unwrap();
        match handle.join() {
            Ok(Ok(r)) => all.push(r),
            other => return case.fail(format!("on another thread: {:?}", other.map(|r| r.map(|_| ())))),
        }
    }
    case.nontrivial = text.len() > 4;
    case.class(if first.is_ok() { "accepted" } else { "rejected" });
    for r in all {
        // the debug text shows locations too
        if r != first || format!("{:?}", r) != format!("{:?}", first) {
            return case.fail(format!("first {:?}, then {:?}", first, r));
        }
    }
}

// ------------------------------------------------------------------ C20

/// The pattern an expression stands for as the target of an assignment.
pub fn patt_of(e: &Expr) -> Option<Patt<AssignTarget>> {
    Some(match *e {
        Expr::Arr(l, ref xs) => {
            let n = xs.len();
            let mut ps = vec![];
            let mut rest = None;
            for (i, x) in xs.iter().enumerate() {
                match *x {
                    None => ps.push(None),
                    Some(ExprListItem::Expr(ref e)) => ps.push(Some(patt_of(e)?)),
                    Some(ExprListItem::Spread(l, ref e)) if i + 1 == n => rest = Some(Box::new(RestPatt { location: l, patt: patt_of(e)? })),
                    Some(ExprListItem::Spread(..)) => return None,
                }
            }
            Patt::Compound(CompoundPatt::Arr(l, ps, rest))
        }
        Expr::Obj(l, ref props) => {
            let mut ps = vec![];
            for p in props {
                ps.push(match *p {
                    Prop::Regular(l, ref k, PropVal::Init(ref e)) => PropPatt::Regular(l, k.clone(), patt_of(e)?),
                    Prop::Shorthand(ref i) => PropPatt::Shorthand(i.clone()),
                    _ => return None,
                });
            }
            Patt::Compound(CompoundPatt::Obj(l, ps))
        }
        _ => Patt::Simple(target_of(e)?),
    })
}
pub fn target_of(e: &Expr) -> Option<AssignTarget> {
    Some(match *e {
        Expr::Id(ref i) => AssignTarget::Id(i.clone()),
        Expr::Dot(l, ref o, ref k) => AssignTarget::Dot(l, o.clone(), k.clone()),
        Expr::Brack(l, ref o, ref k) => AssignTarget::Brack(l, o.clone(), k.clone()),
        _ => return None,
    })
}
/// Expressions that are targets, nearly targets, or none.
pub fn near_target(src: &mut Src, depth: u32) -> Expr {
    let mut o = Opts::new(Goal::Script, if src.bool() { 1 } else { 6 });
    o.plain = true;
    if depth > 0 && src.chance(1, 2) {
        let n = src.count(2, 4);
        if src.bool() {
            let xs = (0..n)
                .map(|i| match src.weighted(&[6, 2, 1]) {
                    0 => Some(ExprListItem::Expr(near_target(src, depth - 1))),
                    1 if i + 1 == n || src.chance(1, 6) => Some(ExprListItem::Spread(None, near_target(src, depth - 1))),
                    _ => None,
                })
                .collect();
            return Expr::Arr(None, xs);
        }
        let ps = (0..n)
            .map(|_| {
                let key = Gen::new(src, o.clone()).prop_key();
                match src.weighted(&[12, 6, 1, 1]) {
                    0 => Prop::Regular(None, key, PropVal::Init(near_target(src, depth - 1))),
                    1 => Prop::Shorthand(id(*src.pick(&["a", "of", "get", "set", "async"]))),
                    2 => Prop::Regular(None, key, PropVal::Get(None, body(vec![]))),
                    _ => Prop::Method(Fun { location: None, id: key, params: Params { location: None, list: vec![], rest: None }, body: body(vec![]), generator: false }),
                }
            })
            .collect();
        return Expr::Obj(None, ps);
    }
    match src.weighted(&[8, 4, 4, 2]) {
        0 => Expr::Id(id(*src.pick(&["a", "b", "of", "get", "eval"]))),
        1 => Expr::Dot(None, Box::new(Gen::new(src, o).expr()), dot_key("p")),
        2 => Expr::Brack(None, Box::new(Gen::new(src, o.clone()).expr()), Box::new(Gen::new(src, o).expr())),
        _ => Gen::new(src, o).expr(),
    }
}
fn c20_targets(src: &mut Src, case: &mut Case) {
    let mut e = near_target(src, 3);
    let place = src.below(8);
    let mut p = Printer::new(src, Style { parens: 0, escapes: false, commas: false, param_commas: false });
    // parentheses around targets that are not patterns change nothing; the rest needs them to stand here
    let literal = match e {
        Expr::Arr(..) | Expr::Obj(..) => true,
        _ => false,
    };
    let wrap = !literal && (level(&e) < 15 || p.src.chance(1, 4));
    p.expr(&mut e, 0, false);
    let mut text = spaced(&p.toks);
    // a for head that starts with let declares
    if wrap || place >= 6 && (text == "let" || text.starts_with("let ")) {
        text = format!("( {} )", text);
    }
    let v = || Box::new(ident("v"));
    let patt = patt_of(&e);
    let target = target_of(&e);
    let aop = src.pick(astgen::ASSOPS).clone();
    let mut want: Option<Script> = match place {
        0 => patt.map(|p| body(vec![expr_stmt(Expr::Assign(None, p, v()))])),
        1 => target.map(|t| body(vec![expr_stmt(Expr::BinAssign(None, op(aop.clone()), t, v()))])),
        2 => target.map(|t| body(vec![expr_stmt(Expr::PreInc(None, Box::new(t)))])),
        3 => target.map(|t| body(vec![expr_stmt(Expr::PreDec(None, Box::new(t)))])),
        4 => target.map(|t| body(vec![expr_stmt(Expr::PostInc(None, Box::new(t)))])),
        5 => target.map(|t| body(vec![expr_stmt(Expr::PostDec(None, Box::new(t)))])),
        6 => patt.map(|p| body(vec![StmtListItem::Stmt(Stmt::ForIn(None, Box::new(ForInHead::Patt(p)), ident("v"), Box::new(Stmt::Empty(None))))])),
        _ => patt.map(|p| body(vec![StmtListItem::Stmt(Stmt::ForOf(None, Box::new(ForOfHead::Patt(p)), ident("v"), Box::new(Stmt::Empty(None))))])),
    };
    let text = match place {
        0 => format!("( {} = v ) ;", text),
        1 => format!("( {} {} v ) ;", text, ast::assop_text(&aop)),
        2 => format!("( ++ {} ) ;", text),
        3 => format!("( -- {} ) ;", text),
        4 => format!("( {} ++ ) ;", text),
        5 => format!("( {} -- ) ;", text),
        6 => format!("for ( {} in v ) ;", text),
        _ => format!("for ( {} of v ) ;", text),
    };
    case.set_input(format!("{:?}", text));
    case.nontrivial = literal || want.is_none();
    case.class(format!("{} {}", ["=", "op=", "++x", "--x", "x++", "x--", "for-in", "for-of"][place as usize], if want.is_some() { "valid" } else { "invalid" }));
    match (want.as_mut(), parse(Goal::Script, &text)) {
        (Some(w), Ok(mut t)) => {
            if let Some(d) = compare(w, &mut t, Detail::Source) {
                case.fail(d);
            }
        }
        (Some(_), Err(e)) => case.fail(format!("rejected: {:?}", e)),
        (None, Err(Error::InvalidLHS(..))) => {}
        (None, Err(e)) => case.fail(format!("not a target, but the error is {:?}", e)),
        (None, Ok(t)) => case.fail(format!("not a target, but accepted as {:?}", t)),
    }
}
/// Patterns in parentheses, or with a comma after the rest element, are no targets at any depth.
fn c20_written(src: &mut Src, case: &mut Case) {
    let inner = *src.pick(&["[a]", "{a}", "[]", "{}", "[a, b]", "{a: b}", "[[a]]", "{a: {b}}"]);
    let comma = src.chance(1, 3);
    let bad = if comma { format!("[{}...{},]", *src.pick(&["", "x, ", ", "]), *src.pick(&["a", "a.b", "[a]"])) } else { format!("({})", inner) };
    let mut t = bad.clone();
    for _ in 0..src.below(3) {
        t = match src.below(4) {
            0 => format!("[{}]", t),
            1 => format!("[a, {}, b]", t),
            2 => format!("{{k: {}}}", t),
            _ => format!("[...{}]", t),
        };
    }
    let ok = t.clone();
    let text = match src.below(3) {
        0 => format!("({} = v);", t),
        1 => format!("for ({} in v) ;", t),
        _ => format!("for ({} of v) ;", t),
    };
    case.set_input(format!("{:?}", text));
    case.nontrivial = true;
    match parse(Goal::Script, &text) {
        Err(Error::InvalidLHS(..)) => {}
        r => case.fail(format!("expected an invalid target, got {:?}", r)),
    }
    // as an expression, or where a member of it is the target, it is fine
    for text in &[format!("({});", ok), format!("{} + 1;", format!("({})", ok)), format!("({}).p = v;", ok), format!("[({}).p] = v;", ok), format!("({}[0] = v);", ok), format!("x = ({});", ok)] {
        if let Err(e) = parse(Goal::Script, text) {
            case.set_input(format!("{:?}", text));
            case.fail(format!("rejected: {:?}", e));
        }
    }
}

// ------------------------------------------------------------------ C21

static DIRS: &[&str] = &[
    "'use strict'", "\"use strict\"", "'use strict '", "'Use strict'", "'use\\x20strict'", "'use\\u0020strict'", "'use \\\nstrict'", "''", "\"\"", "'use asm'", "'use  strict'", "'\\'use strict'", "'use\\040strict'",
    "' use strict'", "'usestrict'", "'use strict\\\n'", "'use stric\\u{74}'", "\"'use strict'\"", "'x'",
];
fn cont(s: &str, k: u64) -> Option<(&'static str, Expr)> {
    let st = || Box::new(Expr::String(None, str_lit(s)));
    let a = || Box::new(ident("a"));
    let bin = |t: BinopTag| Expr::Binop(None, op(t), st(), a());
    Some(match k {
        0 => ("+ a", bin(BinopTag::Plus)),
        1 => ("- a", bin(BinopTag::Minus)),
        2 => ("* a", bin(BinopTag::Times)),
        3 => ("/ a", bin(BinopTag::Div)),
        4 => ("/a/ b", Expr::Binop(None, op(BinopTag::Div), Box::new(bin(BinopTag::Div)), Box::new(ident("b")))),
        5 => (". a", Expr::Dot(None, st(), dot_key("a"))),
        6 => ("[a]", Expr::Brack(None, st(), a())),
        7 => ("(a)", Expr::Call(None, st(), vec![ExprListItem::Expr(ident("a"))])),
        8 => (", a", Expr::Seq(None, vec![*st(), *a()])),
        9 => (", 'use strict'", Expr::Seq(None, vec![*st(), Expr::String(None, str_lit("'use strict'"))])),
        10 => ("? a : b", Expr::Cond(None, st(), a(), Box::new(ident("b")))),
        11 => ("in a", bin(BinopTag::In)),
        12 => ("instanceof a", bin(BinopTag::Instanceof)),
        13 => ("&& a", Expr::Logop(None, op(LogopTag::And), st(), a())),
        14 => ("|| a", Expr::Logop(None, op(LogopTag::Or), st(), a())),
        15 => ("== a", bin(BinopTag::Eq)),
        16 => ("!== a", bin(BinopTag::StrictNEq)),
        17 => ("< a", bin(BinopTag::Lt)),
        18 => (">>> a", bin(BinopTag::URShift)),
        19 => ("& a", bin(BinopTag::BitAnd)),
        20 => ("| a", bin(BinopTag::BitOr)),
        21 => ("^ a", bin(BinopTag::BitXor)),
        22 => ("% a", bin(BinopTag::Mod)),
        23 => ("<= a", bin(BinopTag::LEq)),
        24 => ("!= a", bin(BinopTag::NEq)),
        25 => ("=== a", bin(BinopTag::StrictEq)),
        26 => ("> a", bin(BinopTag::Gt)),
        27 => (">= a", bin(BinopTag::GEq)),
        28 => ("<< a", bin(BinopTag::LShift)),
        29 => (">> a", bin(BinopTag::RShift)),
        30 => (".length.a", Expr::Dot(None, Box::new(Expr::Dot(None, st(), dot_key("length"))), dot_key("a"))),
        _ => return None,
    })
}
/// Statements that do not continue what is before them, for after a line terminator.
fn fresh_stmt(k: u64) -> (&'static str, Stmt) {
    let x = |e: Expr| Stmt::Expr(None, e, Semi::Explicit(None));
    let t = || Box::new(AssignTarget::Id(id("a")));
    match k {
        0 => ("a;", x(ident("a"))),
        1 => ("!a;", x(Expr::Unop(None, op(UnopTag::Not), Box::new(ident("a"))))),
        2 => ("~a;", x(Expr::Unop(None, op(UnopTag::BitNot), Box::new(ident("a"))))),
        3 => ("++a;", x(Expr::PreInc(None, t()))),
        4 => ("--a;", x(Expr::PreDec(None, t()))),
        5 => ("1;", x(Expr::Number(None, astgen::num_lit("1")))),
        6 => ("{}", Stmt::Block(Block { location: None, items: vec![] })),
        7 => ("typeof a;", x(Expr::Unop(None, op(UnopTag::Typeof), Box::new(ident("a"))))),
        8 => ("var v;", Stmt::Var(None, vec![Dtor::Simple(None, id("v"), None)], Semi::Explicit(None))),
        9 => ("debugger;", Stmt::Debugger(None, Semi::Explicit(None))),
        10 => ("new a;", x(Expr::New(None, Box::new(ident("a")), None))),
        11 => ("this;", x(Expr::This(None))),
        12 => ("instanceof1;", x(ident("instanceof1"))),
        13 => ("l: ;", Stmt::Label(None, id("l"), Box::new(Stmt::Empty(None)))),
        14 => ("null;", x(Expr::Null(None))),
        _ => ("of;", x(ident("of"))),
    }
}
fn c21_prologue(src: &mut Src, case: &mut Case) {
    let place = src.below(7);
    let mut text = String::new();
    let mut want: Script = body(vec![]);
    let mut prologue = true;
    let n = 1 + src.count(2, 5);
    let mut open = false; // the statement before has no semicolon
    let (mut continued, mut strings) = (0, 0);
    for _ in 0..n {
        let gap = |src: &mut Src, nl: bool| -> &'static str {
            if nl {
                *src.pick(&["\n", "\r\n", "\u{2028}", " // c\n", "/*\n*/", "\n\n"])
            } else {
                *src.pick(&[" ", "", "\n", "/* c */", " // c\n", "/*\n*/"])
            }
        };
        let lead = gap(src, open);
        text.push_str(lead);
        match src.weighted(&[6, 3, 2, 1]) {
            0 => {
                // a string statement
                let s = *src.pick(DIRS);
                strings += 1;
                text.push_str(s);
                if prologue {
                    want.dirs.push(Dir { location: None, string: str_lit(s), semi: Semi::Explicit(None) });
                } else {
                    want.items.push(expr_stmt(Expr::String(None, str_lit(s))));
                }
                open = src.bool();
                if !open {
                    text.push_str(gap(src, false));
                    text.push(';');
                }
            }
            1 => {
                let s = *src.pick(DIRS);
                let (t, e) = cont(s, src.below(31)).unwrap();
                continued += 1;
                text.push_str(s);
                text.push_str(match src.below(4) {
                    0 => " ",
                    1 => "\n",
                    2 => "/*\n*/ ",
                    _ => " // c\n",
                });
                text.push_str(t);
                text.push(';');
                want.items.push(expr_stmt(e));
                prologue = false;
                open = false;
            }
            2 => {
                let (t, s) = fresh_stmt(src.below(16));
                text.push_str(t);
                want.items.push(StmtListItem::Stmt(s));
                prologue = false;
                open = false;
            }
            _ if !open => {
                let s = *src.pick(DIRS);
                text.push_str(&format!("({});", s));
                want.items.push(expr_stmt(Expr::String(None, str_lit(s))));
                prologue = false;
            }
            _ => {
                text.push_str(";");
                open = false;
            }
        }
    }
    let strict_here = want.dirs.iter().any(|d| d.string.source.as_ref().map_or(false, |s| s == "'use strict'" || s == "\"use strict\""));
    let probe = src.below(5);
    if probe > 0 {
        if open {
            text.push('\n');
        }
        let (t, s) = match probe {
            1 => ("with (a) ;", Stmt::With(None, ident("a"), Box::new(Stmt::Empty(None)))),
            2 => ("var yield;", Stmt::Var(None, vec![Dtor::Simple(None, id("yield"), None)], Semi::Explicit(None))),
            3 => ("implements;", Stmt::Expr(None, ident("implements"), Semi::Explicit(None))),
            _ => ("var eval;", Stmt::Var(None, vec![Dtor::Simple(None, id("eval"), None)], Semi::Explicit(None))),
        };
        text.push_str(t);
        want.items.push(StmtListItem::Stmt(s));
    }
    let outer = place > 0 && src.chance(1, 4);
    let params = || Params { location: None, list: vec![], rest: None };
    let (text, mut whole) = match place {
        0 => (text, want),
        1 => (
            format!("function f(){{{}\n}}", text),
            body(vec![StmtListItem::Decl(Decl::Fun(Fun { location: None, id: id("f"), params: params(), body: want, generator: false }))]),
        ),
        2 => (format!("x = function(){{{}\n}};", text), {
            let f = Expr::Fun(Fun { location: None, id: None, params: params(), body: want, generator: false });
            body(vec![expr_stmt(Expr::Assign(None, Patt::Simple(AssignTarget::Id(id("x"))), Box::new(f)))])
        }),
        3 => (
            format!("({{ get k(){{{}\n}} }});", text),
            body(vec![expr_stmt(Expr::Obj(None, vec![Prop::Regular(None, PropKey::Id(None, "k".to_string()), PropVal::Get(None, want))]))]),
        ),
        4 => (
            format!("({{ k(){{{}\n}} }});", text),
            body(vec![expr_stmt(Expr::Obj(
                None,
                vec![Prop::Method(Fun { location: None, id: PropKey::Id(None, "k".to_string()), params: params(), body: want, generator: false })],
            ))]),
        ),
        5 => (
            format!("({{ set k(p){{{}\n}} }});", text),
            body(vec![expr_stmt(Expr::Obj(None, vec![Prop::Regular(None, PropKey::Id(None, "k".to_string()), PropVal::Set(None, Patt::Simple(id("p")), want))]))]),
        ),
        _ => {
            // a block has no prologue
            let mut items: Vec<StmtListItem> = want.dirs.drain(..).map(|d| expr_stmt(Expr::String(None, d.string))).collect();
            items.extend(want.items);
            (format!("{{{}\n}}", text), body(vec![StmtListItem::Stmt(Stmt::Block(Block { location: None, items }))]))
        }
    };
    let (text, strict) = if outer {
        whole.dirs.push(Dir { location: None, string: str_lit("'use strict'"), semi: Semi::Explicit(None) });
        (format!("'use strict';{}", text), true)
    } else if place < 6 {
        (text, strict_here)
    } else {
        (text, false)
    };
    case.set_input(format!("{:?}", text));
    case.nontrivial = continued > 0 || strings > 1 || probe > 0;
    case.class(if strict { "strict" } else { "sloppy" });
    let bad = strict && probe > 0;
    match parse(Goal::Script, &text) {
        Ok(_) if bad => case.fail("accepted, although the directive makes it strict"),
        Ok(mut t) => {
            if let Some(d) = compare(&mut whole, &mut t, Detail::Source) {
                case.fail(d);
            }
        }
        Err(Error::StrictWith(_)) | Err(Error::ContextualKeyword(..)) | Err(Error::IllegalStrictBinding(..)) if bad => {}
        Err(e) => case.fail(format!("rejected: {:?}", e)),
    }
}

// ------------------------------------------------------------------ C30

/// Brackets open before each token.
fn bracket_stacks(toks: &[print::Tok]) -> Vec<Vec<char>> {
    let mut v = vec![];
    let mut s: Vec<char> = vec![];
    for t in toks {
        v.push(s.clone());
        match t.text.as_str() {
            "(" => s.push(')'),
            "[" => s.push(']'),
            "{" => s.push('}'),
            ")" | "]" | "}" => {
                s.pop();
            }
            _ => {}
        }
    }
    v.push(s);
    v
}
pub fn span_at(text: &str, start: usize, end: usize) -> Span {
    let table = print::posn_table(&text.chars().collect::<Vec<char>>());
    Span { start: table[start], end: table[end] }
}
/// Whether a line terminator is among the white space before an offset.
pub fn newline_before(text: &str, at: usize) -> bool {
    let cs: Vec<char> = text.chars().take(at).collect();
    cs.iter().rev().take_while(|&&c| reflex::is_nl(c) || reflex::is_space(c)).any(|&c| reflex::is_nl(c))
}
fn tail(src: &mut Src) -> String {
    match src.below(4) {
        0 => String::new(),
        1 => format!(" {}", soup(src)),
        2 => " @ # ` 0x 'unterminated".to_string(),
        _ => " ; a b c".to_string(),
    }
}
fn c30_broken(src: &mut Src, case: &mut Case) {
    let goal = astgen::goal(src);
    let mut opts = Opts::new(goal, src.range(2, 40));
    opts.plain = true;
    let mut tree = Gen::new(src, opts).program();
    let style = Style::any(src);
    let toks = print::print(src, &mut tree, style);
    let stacks = bracket_stacks(&toks);
    let i = src.below(toks.len() as u64 + 1) as usize;
    let after_throw = i > 0 && toks[i - 1].text == "throw";
    // cut short, the operand of an update may be no target
    let update = toks[..i].iter().any(|t| t.text == "++" || t.text == "--");
    // a jump that needed its label is itself illegal
    let after_jump = i > 0 && (toks[i - 1].text == "break" || toks[i - 1].text == "continue");
    // in strict code a let that no binding follows is itself no identifier
    let after_let = i > 0 && toks[i - 1].text == "let";
    let mut text = String::new();
    for (k, t) in toks[..i].iter().enumerate() {
        text.push_str(&t.text);
        text.push(if t.text != "throw" && !toks.get(k + 1).map_or(false, |t| t.stuck) && src.chance(1, 10) { '\n' } else { ' ' });
    }
    let at = text.chars().count();
    case.nontrivial = true;
    let open = &stacks[i];
    match src.below(3) {
        0 => {
            // a bracket that closes nothing
            let c = *src.pick(&[')', ']', '}']);
            if open.last() == Some(&c) {
                case.nontrivial = false;
                case.set_input("(balanced)".to_string());
                return;
            }
            text.push(c);
            text.push_str(&tail(src));
            case.set_input(format!("{:?} {:?}, wrong at {}", goal, text, at));
            case.class("closing bracket");
            let value = match c {
                ')' => TokenData::RParen,
                ']' => TokenData::RBrack,
                _ => TokenData::RBrace,
            };
            let want = Token { location: span_at(&text, at, at + 1), newline: newline_before(&text, at), value };
            match parse(goal, &text) {
                Ok(t) => case.fail(format!("accepted as {:?}", t)),
                Err(Error::ThrowArgument(_)) if after_throw => {}
                Err(Error::ContextualKeyword(_, Atom::Let)) if after_let => {}
                Err(Error::IllegalBreak(_)) | Err(Error::IllegalContinue(_)) if after_jump => {}
                Err(Error::InvalidLHS(..)) if update => {}
                Err(e) => match blamed(&e) {
                    Some(t) if *t == want => {}
                    _ => case.fail(format!("expected to blame the bracket, got {:?}", e)),
                },
            }
        }
        1 => {
            // the end of input inside an open construct
            let trail = *src.pick(&["", " ", "\n", "// c", "/* c */", "\n\n "]);
            text.push_str(trail);
            let end = text.chars().count();
            case.set_input(format!("{:?} {:?}", goal, text));
            case.class("end of input");
            if open.is_empty() {
                case.nontrivial = false;
                return;
            }
            let newline = trail.contains('\n') || newline_before(&text, at);
            let want = Token { location: span_at(&text, end, end), newline, value: TokenData::EOF };
            match parse(goal, &text) {
                Ok(t) => case.fail(format!("accepted as {:?}", t)),
                Err(Error::ThrowArgument(_)) if after_throw => {}
                Err(Error::ContextualKeyword(_, Atom::Let)) if after_let => {}
                Err(Error::IllegalBreak(_)) | Err(Error::IllegalContinue(_)) if after_jump => {}
                Err(Error::InvalidLHS(..)) if update => {}
                Err(e) => match blamed(&e) {
                    Some(t) if *t == want => {}
                    _ => case.fail(format!("expected to blame the end of input at {}, got {:?}", end, e)),
                },
            }
        }
        _ => {
            // a malformed lexeme
            let bad = *src.pick(&["@", "#", "'a\n'", "\"", "0x", "1e", "3a", "\\u{110000}", "\\u00", "1e+", "0b2", "'\\u{110000}'", "v\\u0061r", "/*", "a\\u0020"]);
            text.push_str(bad);
            if bad != "/*" && bad != "\"" {
                text.push_str(" ");
            }
            case.set_input(format!("{:?} {:?}, malformed at {}", goal, text, at));
            case.class("malformed lexeme");
            let cs: Vec<char> = text.chars().collect();
            // the lexer's own answer, in the reference's modes
            let ops: Vec<bool> = toks[..i].iter().map(|t| !t.regexp).collect();
            let l = lexdrv::lex(&cs, |k| ops.get(k).cloned().unwrap_or(true));
            let want = match l.err {
                Some(e) => e,
                None => return case.fail("the lexer accepts it"),
            };
            match parse(goal, &text) {
                Ok(t) => case.fail(format!("accepted as {:?}", t)),
                Err(Error::LexError(ref e)) if *e == want => {}
                Err(e) => case.fail(format!("expected the lexer's {:?}, got {:?}", want, e)),
            }
            // and with something else after it
            if bad != "/*" && bad != "\"" {
                let longer = format!("{}{}", text, tail(src));
                let (a, b) = (parse(goal, &text).err(), parse(goal, &longer).err());
                if a != b {
                    case.set_input(format!("{:?} and {:?}", text, longer));
                    case.fail(format!("what follows changes the error: {:?}, {:?}", a, b));
                }
            }
        }
    }
}
/// The blamed token is the first that cannot be there: not one after the one
/// that another parser stops at.
fn c30_elsewhere(src: &mut Src, case: &mut Case) {
    let goal = astgen::goal(src);
    let text = match src.below(4) {
        0 => soup(src),
        1 => {
            let mut o = Opts::new(goal, src.range(1, 24));
            o.portable = true;
            o.plain = src.bool();
            let style = Style::any(src);
            let mut l = Lay::any(src);
            l.html = false;
            let m = make(src, o, style, &l);
            mangle(src, &m.toks)
        }
        _ => crate::acornprops::phrase_text(src),
    };
    case.set_input(format!("{:?} {:?}", goal, text));
    let e = match parse(goal, &text) {
        Err(e) => e,
        Ok(_) => return,
    };
    let at = match e {
        Error::UnexpectedToken(ref t) | Error::FailedASI(ref t) => t.location.start.offset,
        // targets that are no targets are other defects, but only where a target is due
        Error::InvalidLHS(..) if !["++", "--", "[", "{"].iter().any(|w| text.contains(w)) => 0,
        _ => return,
    };
    let there = match crate::acorn::blame(goal, &text) {
        Some(n) => n,
        None => return case.class("no second opinion"),
    };
    case.nontrivial = true;
    match e {
        Error::InvalidLHS(..) => case.fail(format!("{:?}, but the token at {} cannot be there", e, there)),
        _ if at > there => case.fail(format!("{:?}, but already the token at {} cannot be there", e, there)),
        // it reads more than this parser does: patterns, defaults
        _ if at < there => case.class("blamed earlier"),
        _ => case.class("blamed at the same place"),
    }
}
/// Whatever the error, what follows the place it blames has no influence on it.
fn c30_suffix(src: &mut Src, case: &mut Case) {
    let text = any_text(src, case);
    let goal = astgen::goal(src);
    case.set_input(format!("{:?} {:?}", goal, text));
    let e = match parse(goal, &text) {
        Err(e) => e,
        Ok(_) => return,
    };
    let (span, value) = match e {
        Error::UnexpectedToken(ref t) | Error::FailedASI(ref t) | Error::OrphanTry(ref t) => (t.location, t.value.clone()),
        _ => return,
    };
    if value == TokenData::EOF {
        return;
    }
    case.nontrivial = true;
    let cs: Vec<char> = text.chars().collect();
    let (a, b) = (span.start.offset as usize, span.end.offset as usize);
    if a >= b || b > cs.len() {
        return case.fail(format!("the blamed token is at {}..{}", a, b));
    }
    let head: String = cs[..b].iter().collect();
    // the token must really stand there
    let tok: Vec<char> = cs[a..b].iter().cloned().collect();
    let real = [true, false].iter().any(|&m| {
        let l = lexdrv::lex(&tok, |_| m);
        l.toks.get(0).map_or(false, |t| t.value == value)
    });
    if !real {
        return case.fail(format!("the blamed token is not what stands at {}..{}", a, b));
    }
    // a reserved word as a shorthand property is known as such by what follows it
    if let TokenData::Reserved(_) = value {
        let l = lexdrv::lex(&cs[b..], |_| true);
        if l.toks.get(0).map_or(false, |t| t.value == TokenData::Comma || t.value == TokenData::RBrace) {
            return;
        }
    }
    for t in &["", "\n", " ;", " a b c ) ]"] {
        let other = format!("{} {}", head, t);
        let r = parse(goal, &other).err();
        if r != Some(e.clone()) {
            case.set_input(format!("{:?} {:?} and {:?}", goal, text, other));
            case.fail(format!("what follows changes the error from {:?} to {:?}", e, r));
            return;
        }
    }
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C11",
            rule: "a program of more than three tokens (large programs: 60), or two layouts with different text",
            subs: vec![
                sub("round trip of generated trees", c11_roundtrip, 240000, 4000000),
                sub("two layouts of one tree", c11_layouts, 80000, 1000000),
                sub("large programs", c11_large, 3000, 100000),
            ],
            assumptions: vec!["literal values in the expected tree come from the lexer applied to the literal alone, which C05 to C07 settle"],
        },
        Check {
            id: "C12",
            rule: "a nest or chain of at least two operators, or an expression of more than five tokens, or a for head with a bare in",
            subs: vec![
                enumerate("all nests of three forms", c12_nest, c12_slots() * c12_slots()),
                enumerate("all chains of three and four infix operators", c12_chain3, 23 * 23 * 23),
                sub("long chains", c12_long, 40000, 1000000),
                sub("generated expressions", c12_random, 120000, 2000000),
                sub("bare in in for heads", c12_bare_in, 80000, 1000000),
            ],
            assumptions: vec![],
        },
        Check {
            id: "C13",
            rule: "a program with at least one omitted or wrongly omitted terminator, or a line terminator before a restricted operand",
            subs: vec![
                sub("terminators of generated programs", c13_places, 160000, 3000000),
                sub("terminators that are missing", c13_missing, 120000, 2000000),
                sub("restricted productions", c13_restricted, 80000, 1000000),
            ],
            assumptions: vec![],
        },
        Check {
            id: "C14",
            rule: "a program with a jump or a label",
            subs: vec![sub("jumps in generated programs", c14_jumps, 240000, 4000000), enumerate("all jumps in all nests of three", c14_nests, (NESTS.len() * NESTS.len() * NESTS.len()) as u64)],
            assumptions: vec![],
        },
        Check {
            id: "C15",
            rule: "a program into which restricted words or with statements were put",
            subs: vec![
                sub("restricted words in generated programs", c15_strict, 240000, 4000000),
                enumerate("words as property names", c15_names, (crate::tok::RESERVED.len() + crate::tok::ATOMS.len()) as u64),
            ],
            assumptions: vec![],
        },
        Check {
            id: "C16",
            rule: "an accepted text of more than four bytes, or any of more than twelve",
            subs: vec![sub("any text", c16_any, 120000, 3000000), sub("programs with restricted words", c16_strict, 120000, 3000000)],
            assumptions: vec!["texts that contain import, export or the use module pragma are left out"],
        },
        Check {
            id: "C17",
            rule: "a program of more than three tokens, or an accepted text of more than four bytes",
            subs: vec![sub("locations of generated programs", c17_exact, 240000, 4000000), sub("locations of whatever is accepted nest", c17_nest, 160000, 2000000)],
            assumptions: vec!["whether grouping parentheses at the very edge of a node are counted is left open"],
        },
        Check {
            id: "C18",
            rule: "a text of more than four bytes",
            subs: vec![
                sub("any text", c18_any, 180000, 5000000),
                sub("token soup", c18_soup, 180000, 5000000),
                sub("phrases", c18_phrases, 400000, 10000000),
                enumerate_all("phrases that belong together", c18_kin, || crate::acornprops::kin_count()),
                sub("again", c18_again, 24000, 800000),
                enumerate("all sequences of four tokens of a small vocabulary", c18_short, (C18_WORDS.len() * C18_WORDS.len() * C18_WORDS.len()) as u64),
                enumerate("unsupported syntax", c18_unsupported, UNSUPPORTED.len() as u64),
                enumerate("deep nesting", c18_deep, DEEP.len() as u64 * 12),
            ],
            assumptions: vec!["nesting is explored to 2000 levels on a stack of 512 MB"],
        },
        Check {
            id: "C20",
            rule: "an array or object literal, or something that is no target",
            subs: vec![sub("targets and what is none", c20_targets, 1200000, 6000000), sub("patterns not written as patterns", c20_written, 200000, 1000000)],
            assumptions: vec![],
        },
        Check {
            id: "C21",
            rule: "a body with a continued string, several string statements, or a strict mode probe",
            subs: vec![sub("prologues", c21_prologue, 1200000, 6000000)],
            assumptions: vec!["the experimental use module pragma is outside the claim"],
        },
        Check {
            id: "C30",
            rule: "a program broken at a token, or a text whose error blames a token",
            subs: vec![sub("broken programs", c30_broken, 240000, 4000000), sub("what follows the blamed token", c30_suffix, 160000, 2000000), sub("where another parser stops", c30_elsewhere, 400000, 8000000)],
            assumptions: vec!["an error about a missing operand of throw names the throw"],
        },
    ]
}
