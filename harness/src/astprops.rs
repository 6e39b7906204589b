//! Checks of the syntax tree library: C22 to C26, C31.
use crate::ast::{self, Detail, Vis, Walk};
use crate::astgen::{self, id, op, str_lit, Gen, Goal, Opts};
use crate::engine::*;
use crate::lexdrv;
use crate::parsedrv::*;
use crate::parseprops::{near_target, patt_of, target_of};
use crate::print::{Lay, Style};
use crate::tok;
use esprit::error::Check as Deferred;
use easter::cover::{self, IntoAssignPatt, IntoAssignProp, IntoAssignTarget};
use easter::decl::{ConstDtor, Decl, Dtor, DtorExt};
use easter::expr::{Expr, ExprListItem};
use easter::fun::{Fun, Params};
use easter::id::{Id, IdExt};
use easter::obj::{DotKey, Prop, PropKey, PropVal};
use easter::patt::{AssignTarget, CompoundPatt, Patt, PropPatt};
use easter::punc::{Assop, AssopTag, Binop, BinopTag, Logop, LogopTag, Precedence, Semi, ToOp, Unop, UnopTag};
use easter::stmt::{Block, Body, Dir, ModItem, Module, Script, Stmt, StmtListItem};
use joker::token::{NumberLiteral, RegExpLiteral, StringLiteral, Token, TokenData};
use joker::track::{span, Posn, Span, TrackingMut, TrackingRef, Untrack};
use joker::word::{Name, Reserved};
use std::str::FromStr;

// ------------------------------------------------------------------ trees with arbitrary locations

fn posn(n: u32) -> Posn {
    Posn { offset: n, line: n / 7, column: n % 7 }
}

fn any_loc(src: &mut Src, fresh: &mut u32) -> Option<Span> {
    *fresh += 2;
    if src.chance(1, 5) {
        None
    } else {
        Some(Span { start: posn(*fresh), end: posn(*fresh + 1) })
    }
}

/// Gives every location of a tree a value of its own, or none.
fn track<T: Walk>(src: &mut Src, t: &mut T) {
    let mut fresh = 0;
    let mut locs = vec![];
    let mut semis = vec![];
    {
        let (mut n, mut m) = (0usize, 0usize);
        ast::relocate(t, |_| n += 1, |_| m += 1);
        for _ in 0..n {
            locs.push(any_loc(src, &mut fresh));
        }
        for _ in 0..m {
            fresh += 2;
            semis.push(match src.below(4) {
                0 => Semi::Inserted,
                1 => Semi::Explicit(None),
                _ => Semi::Explicit(Some(posn(fresh))),
            });
        }
    }
    let (mut i, mut j) = (0, 0);
    ast::relocate(
        t,
        |l| {
            *l = locs[i];
            i += 1;
        },
        |s| {
            *s = semis[j];
            j += 1;
        },
    );
}

struct Count(u64);
impl Vis for Count {
    fn open(&mut self, _: &'static str) {
        self.0 += 1;
    }
}
fn size<T: Walk>(t: &mut T) -> u64 {
    let mut c = Count(0);
    t.walk(&mut c);
    c.0
}

fn wild(src: &mut Src, mean: i64) -> Module {
    let mut o = Opts::new(astgen::goal(src), src.range(1, mean));
    o.wild = true;
    o.plain = src.bool();
    let mut t = Gen::new(src, o).wild_module();
    track(src, &mut t);
    t
}

fn same<T: Walk>(a: &mut T, b: &mut T, d: Detail) -> Option<String> {
    let (x, y) = (ast::dump(a, d), ast::dump(b, d));
    ast::dump_diff(&x, &y)
}

// ------------------------------------------------------------------ C22

fn c22_erases(src: &mut Src, case: &mut Case) {
    let mut t = wild(src, 40);
    case.set_input(clip(&ast::dump(&mut t, Detail::Full)));
    case.nontrivial = size(&mut t) > 12;
    let mut want = t.clone();
    ast::erase(&mut want);
    t.untrack();
    if let Some(d) = same(&mut want, &mut t, Detail::Full) {
        return case.fail(format!("after untracking, {}", d));
    }
    t.untrack();
    if let Some(d) = same(&mut want, &mut t, Detail::Full) {
        return case.fail(format!("after untracking twice, {}", d));
    }
    if t != want {
        case.fail("untracked tree is not equal to the erased one");
    }
}

fn clip(s: &str) -> String {
    let joined = s.split('\n').map(|l| l.trim()).collect::<Vec<_>>().join(" ");
    if joined.chars().count() > 600 {
        format!("{} ...", joined.chars().take(600).collect::<String>())
    } else {
        joined
    }
}

/// Untracks every single node kind on its own.
fn c22_parts(src: &mut Src, case: &mut Case) {
    let mut o = Opts::new(Goal::Script, src.range(1, 12));
    o.wild = true;
    o.plain = true;
    macro_rules! part {
        ($kind:expr, $v:expr) => {{
            let mut t = $v;
            track(src, &mut t);
            case.class($kind);
            case.set_input(format!("{}: {}", $kind, clip(&ast::dump(&mut t, Detail::Full))));
            let mut want = t.clone();
            ast::erase(&mut want);
            t.untrack();
            if let Some(d) = same(&mut want, &mut t, Detail::Full) {
                return case.fail(format!("after untracking, {}", d));
            }
        }};
    }
    case.nontrivial = true;
    match src.below(18) {
        0 => part!("expression", Gen::new(src, o).expr()),
        1 => part!("statement", Gen::new(src, o).stmt(false)),
        2 => part!("item", Gen::new(src, o).item()),
        3 => part!("target", Gen::new(src, o).target()),
        4 => part!("assignment pattern", Gen::new(src, o).assign_patt(3)),
        5 => part!("binding pattern", Gen::new(src, o).wild_patt(3)),
        6 => part!("property key", Gen::new(src, o).prop_key()),
        7 => part!("dot key", DotKey { location: None, value: "k".to_string() }),
        8 => part!("identifier", id("a")),
        9 => part!("binop", op(src.pick(astgen::BINOPS).clone())),
        10 => part!("unop", op(src.pick(astgen::UNOPS).clone())),
        11 => part!("logop", op(src.pick(astgen::LOGOPS).clone())),
        12 => part!("assop", op(src.pick(astgen::ASSOPS).clone())),
        13 => part!("list item", ExprListItem::Spread(None, Gen::new(src, o).expr())),
        14 => part!("box", Box::new(Gen::new(src, o).expr())),
        15 => part!("property", Prop::Regular(None, Gen::new(src, o.clone()).prop_key(), PropVal::Init(Gen::new(src, o).expr()))),
        16 => part!("directive", Dir { location: None, string: str_lit("'use strict'"), semi: Semi::Inserted }),
        _ => part!("accessor", PropVal::Set(None, Gen::new(src, o.clone()).wild_patt(2), Gen::new(src, o).program())),
    }
}

/// A program of undecided goal or a module, with the checks it carries.
fn unit(src: &mut Src) -> (esprit::Program, Module) {
    if src.bool() {
        let m = wild(src, 20);
        return (esprit::Program::Module(m.clone()), m);
    }
    let mut o = Opts::new(Goal::Script, src.range(1, 20));
    o.wild = true;
    o.plain = src.bool();
    let mut t = Gen::new(src, o).program();
    track(src, &mut t);
    let checks = (0..src.below(3))
        .map(|i| {
            let mut e = id("arguments");
            e.location = any_loc(src, &mut (500 + 10 * i as u32));
            Deferred::Strict(esprit::error::Error::InvalidLabel(e))
        })
        .collect();
    let Script { location, dirs, items } = t.clone();
    let as_module = Module { location, dirs, items: items.into_iter().map(|i| i.into_mod_item()).collect() };
    (esprit::Program::Ambiguous(checks, t), as_module)
}

fn unit_dump(p: &mut esprit::Program) -> String {
    match *p {
        esprit::Program::Ambiguous(ref c, ref mut s) => format!("{:?}\n{}", c, ast::dump(s, Detail::Full)),
        esprit::Program::Module(ref mut m) => ast::dump(m, Detail::Full),
    }
}

/// Whole program units: untracked, they are what untracking what they hold gives.
fn c22_units(src: &mut Src, case: &mut Case) {
    let (mut p, mut m) = unit(src);
    case.set_input(clip(&unit_dump(&mut p)));
    case.nontrivial = size(&mut m) > 12;
    let mut want = p.clone();
    match want {
        esprit::Program::Ambiguous(_, ref mut s) => ast::erase(s),
        esprit::Program::Module(ref mut m) => ast::erase(m),
    }
    case.class(if let esprit::Program::Module(_) = p { "module" } else { "ambiguous" });
    p.untrack();
    if let Some(d) = ast::dump_diff(&unit_dump(&mut want), &unit_dump(&mut p)) {
        return case.fail(format!("after untracking, {}", d));
    }
    if p != want {
        case.fail("the untracked unit is not equal to the erased one");
    }
}

fn c23_units(src: &mut Src, case: &mut Case) {
    let (p, m) = unit(src);
    let at = *m.tracking_ref();
    case.set_input(clip(&unit_dump(&mut p.clone())));
    case.nontrivial = at.is_some();
    case.class(if let esprit::Program::Module(_) = p { "module" } else { "ambiguous" });
    if *p.tracking_ref() != at || *(&p).tracking_ref() != at {
        return case.fail(format!("the location of a program reads {}, stored is {}", ast::span_text(p.tracking_ref()), ast::span_text(&at)));
    }
    let new = if src.chance(1, 4) { None } else { Some(Span { start: posn(900000), end: posn(900010) }) };
    let mut q = p.clone();
    *q.tracking_mut() = new;
    let mut want = p;
    match want {
        esprit::Program::Ambiguous(_, ref mut s) => s.location = new,
        esprit::Program::Module(ref mut m) => m.location = new,
    }
    if let Some(d) = ast::dump_diff(&unit_dump(&mut want), &unit_dump(&mut q)) {
        case.fail(format!("writing the location of a program: {}", d));
    }
}

fn c22_layouts(src: &mut Src, case: &mut Case) {
    let goal = astgen::goal(src);
    let mut o = Opts::new(goal, src.range(2, 40));
    o.plain = true;
    let mut tree = Gen::new(src, o).program();
    tree.untrack();
    // the texts of literals and the escapes of names are part of the tree, so they stay as they are
    let style = || Style { parens: 0, escapes: false, commas: false, param_commas: false };
    let l1 = Lay::any(src);
    let l2 = Lay::any(src);
    let a = lay(src, goal, tree.clone(), style(), &l1);
    let b = lay(src, goal, tree.clone(), style(), &l2);
    case.set_input(format!("{:?} {:?} and {:?}", goal, a.laid.text, b.laid.text));
    case.nontrivial = a.laid.text != b.laid.text;
    let (mut x, mut y) = match (parse(goal, &a.laid.text), parse(goal, &b.laid.text)) {
        (Ok(x), Ok(y)) => (x, y),
        (x, y) => return case.fail(format!("rejected: {:?}, {:?}", x.err(), y.err())),
    };
    x.untrack();
    y.untrack();
    if x != y {
        return case.fail("two layouts differ after untracking");
    }
    if let Some(d) = same(&mut x, &mut y, Detail::Full) {
        return case.fail(format!("two layouts differ after untracking: {}", d));
    }
    if x != tree {
        case.fail("the untracked tree is not equal to the one printed");
    }
}

// ------------------------------------------------------------------ C23

#[derive(Default)]
struct Locs(Vec<Option<Span>>);
impl Vis for Locs {
    fn loc(&mut self, l: &mut Option<Span>) {
        self.0.push(*l);
    }
}
struct Access<'a> {
    locs: &'a [Option<Span>],
    at: usize,
    nodes: u64,
    write: Option<(u64, Option<Span>)>,
    wrote: Option<usize>,
    bad: Option<String>,
}
impl<'a> Vis for Access<'a> {
    fn loc(&mut self, _: &mut Option<Span>) {
        self.at += 1;
    }
    fn node<T: TrackingMut + Walk>(&mut self, kind: &'static str, n: &mut T) {
        let want = self.locs.get(self.at).cloned().unwrap_or(None);
        let got = *n.tracking_ref();
        if got != want && self.bad.is_none() {
            self.bad = Some(format!("the location of a {} reads {}, stored is {}", kind, ast::span_text(&got), ast::span_text(&want)));
        }
        let got = *(&n).tracking_ref();
        if got != want && self.bad.is_none() {
            self.bad = Some(format!("the location of a reference to a {} reads {}, stored is {}", kind, ast::span_text(&got), ast::span_text(&want)));
        }
        if let Some((k, l)) = self.write {
            if k == self.nodes {
                *n.tracking_mut() = l;
                self.wrote = Some(self.at);
            }
        }
        self.nodes += 1;
    }
}
fn c23_access(src: &mut Src, case: &mut Case) {
    let mut t = wild(src, 30);
    case.set_input(clip(&ast::dump(&mut t, Detail::Full)));
    let mut before = Locs::default();
    t.walk(&mut before);
    let before = before.0;
    let mut a = Access { locs: &before, at: 0, nodes: 0, write: None, wrote: None, bad: None };
    t.walk(&mut a);
    if let Some(b) = a.bad {
        return case.fail(b);
    }
    let nodes = a.nodes;
    case.nontrivial = nodes > 5;
    for round in 0..4 {
        let k = src.below(nodes.max(1));
        let new = if src.chance(1, 4) { None } else { Some(Span { start: posn(900000 + round), end: posn(900010 + round) }) };
        let mut c = t.clone();
        case.subcases += 1;
        // reading while writing: the location written is not compared
        let mut a = Access { locs: &before, at: 0, nodes: 0, write: Some((k, new)), wrote: None, bad: None };
        c.walk(&mut a);
        let at = match a.wrote {
            Some(at) => at,
            None => return case.fail("no node was written"),
        };
        let mut after = Locs::default();
        c.walk(&mut after);
        for i in 0..before.len() {
            let want = if i == at { new } else { before[i] };
            if after.0[i] != want {
                return case.fail(format!(
                    "writing {} to node {} (location {}) leaves location {} at {} instead of {}",
                    ast::span_text(&new), k, at, i, ast::span_text(&after.0[i]), ast::span_text(&want)
                ));
            }
        }
        let (mut x, mut y) = (t.clone(), c);
        if let Some(d) = same(&mut y, &mut x, Detail::Source) {
            return case.fail(format!("writing a location changes something else: {}", d));
        }
    }
}

fn c23_join(src: &mut Src, case: &mut Case) {
    let mut any = |src: &mut Src| -> Option<Span> {
        if src.chance(1, 4) {
            return None;
        }
        let mut p = || {
            let edge = src.chance(1, 12);
            Posn {
                offset: if edge { u32::max_value() } else { src.below(100) as u32 },
                line: src.below(10) as u32,
                column: src.below(50) as u32,
            }
        };
        let start = p();
        let end = p();
        Some(Span { start, end })
    };
    let (a, b) = (any(src), any(src));
    case.set_input(format!("{} and {}", ast::span_text(&a), ast::span_text(&b)));
    case.nontrivial = a.is_some() && b.is_some();
    let want = match (a, b) {
        (Some(a), Some(b)) => Some(Span { start: a.start, end: b.end }),
        _ => None,
    };
    let got = span(&a, &b);
    if got != want {
        return case.fail(format!("joined to {}", ast::span_text(&got)));
    }
    // through nodes
    let x = Expr::Id(Id { location: a, name: Name::from("x".to_string()) });
    let y = Stmt::Block(Block { location: b, items: vec![] });
    let got = span(&x, &y);
    if got != want {
        return case.fail(format!("nodes with these locations joined to {}", ast::span_text(&got)));
    }
    let got = span(&&x, &b);
    if got != want {
        case.fail(format!("a reference joined to {}", ast::span_text(&got)));
    }
}

// ------------------------------------------------------------------ C24

/// Spelling, the tree's tag, and the precedence class, tightest last.
fn binops() -> Vec<(&'static str, BinopTag, u32)> {
    astgen::BINOPS
        .iter()
        .map(|t| {
            let s = ast::binop_text(t);
            let class = match s {
                "|" => 3,
                "^" => 4,
                "&" => 5,
                "==" | "!=" | "===" | "!==" => 6,
                "<" | "<=" | ">" | ">=" | "in" | "instanceof" => 7,
                "<<" | ">>" | ">>>" => 8,
                "+" | "-" => 9,
                _ => 10,
            };
            (s, t.clone(), class)
        })
        .collect()
}

/// All spellings of operators, and what is none.
fn c24_spellings() -> Vec<String> {
    let mut v: Vec<String> = vec![];
    v.extend(binops().iter().map(|b| b.0.to_string()));
    v.extend(astgen::LOGOPS.iter().map(|t| ast::logop_text(t).to_string()));
    v.extend(astgen::ASSOPS.iter().map(|t| ast::assop_text(t).to_string()));
    v.extend(astgen::UNOPS.iter().map(|t| ast::unop_text(t).to_string()));
    v.extend(tok::PUNCS.iter().map(|p| p.to_string()));
    v.extend(tok::RESERVED.iter().map(|p| p.0.to_string()));
    v.extend(tok::ATOMS.iter().map(|p| p.0.to_string()));
    for s in &["", "=", "++", "--", "**", "**=", "??", "===>", "< ", " <", "IN", "Instanceof", "instance of", "in ", "=>", "&&=", "||=", "x", "1", "'in'", "/in/"] {
        v.push(s.to_string());
    }
    v.sort();
    v.dedup();
    v
}

fn token_of(text: &str) -> Option<Token> {
    let cs: Vec<char> = text.chars().collect();
    let l = lexdrv::lex(&cs, |_| true);
    if l.err.is_some() || l.toks.len() != 2 || l.toks[0].location.start.offset != 0 || l.toks[0].location.end.offset as usize != cs.len() {
        return None;
    }
    Some(l.toks[0].clone())
}

fn one_spelling(s: &str, case: &mut Case) {
    let bin = binops().into_iter().find(|b| b.0 == s);
    let log = astgen::LOGOPS.iter().find(|t| ast::logop_text(t) == s);
    let ass = astgen::ASSOPS.iter().find(|t| ast::assop_text(t) == s);
    let un = astgen::UNOPS.iter().find(|t| ast::unop_text(t) == s);
    if bin.is_some() || log.is_some() || ass.is_some() || un.is_some() {
        case.nontrivial = true;
    }
    macro_rules! class {
        ($name:expr, $want:expr, $tag:ty, $op:ty) => {{
            let got = <$tag>::from_str(s).ok();
            if got.as_ref() != $want {
                return case.fail(format!("{:?} read as a {} tag gives {:?}", s, $name, got));
            }
            let got = <$op>::from_str(s).ok();
            if got.as_ref().map(|o| &o.tag) != $want || got.as_ref().map_or(false, |o| o.location.is_some()) {
                return case.fail(format!("{:?} read as a {} gives {:?}", s, $name, got));
            }
        }};
    }
    class!("binary operator", bin.as_ref().map(|b| &b.1), BinopTag, Binop);
    class!("logical operator", log, LogopTag, Logop);
    class!("assignment operator", ass, AssopTag, Assop);
    class!("unary operator", un, UnopTag, Unop);
    if let Some(ref b) = bin {
        for shown in &[b.1.to_string(), op(b.1.clone()).to_string()] {
            if shown != s {
                return case.fail(format!("{:?} is displayed as {:?}", s, shown));
            }
        }
    }
    if let Some(t) = log {
        for shown in &[t.to_string(), op(t.clone()).to_string()] {
            if shown != s {
                return case.fail(format!("{:?} is displayed as {:?}", s, shown));
            }
        }
    }
    if let Some(t) = ass {
        for shown in &[t.to_string(), op(t.clone()).to_string()] {
            if shown != s {
                return case.fail(format!("{:?} is displayed as {:?}", s, shown));
            }
        }
    }
    let tokens: Vec<Token> = match token_of(s) {
        // whether a newline came before, and where the token is, have no say
        Some(token) => {
            let far = Span { start: Posn { offset: 77, line: 3, column: 5 }, end: Posn { offset: 77 + s.len() as u32, line: 3, column: 5 + s.len() as u32 } };
            vec![
                token.clone(),
                Token { newline: !token.newline, ..token.clone() },
                Token { location: far, newline: true, ..token.clone() },
                Token { location: far, newline: false, ..token },
            ]
        }
        None => vec![],
    };
    for token in tokens {
        for &allow_in in &[true, false] {
            let want = bin.as_ref().filter(|b| allow_in || b.0 != "in").map(|b| &b.1);
            let got = token.to_binop(allow_in);
            if got.as_ref().map(|o| &o.tag) != want {
                return case.fail(format!("the token {:?} (in allowed: {}) converts to the binary operator {:?}", token, allow_in, got));
            }
            if got.map_or(false, |o| o.location != Some(token.location)) {
                return case.fail(format!("the token {:?} loses its location", token));
            }
        }
        let got = token.to_logop();
        if got.as_ref().map(|o| &o.tag) != log || got.map_or(false, |o| o.location != Some(token.location)) {
            return case.fail(format!("the token {:?} converts to the logical operator {:?}", token, token.to_logop()));
        }
        let got = token.to_assop();
        if got.as_ref().map(|o| &o.tag) != ass || got.map_or(false, |o| o.location != Some(token.location)) {
            return case.fail(format!("the token {:?} converts to the assignment operator {:?}", token, token.to_assop()));
        }
    }
}
fn c24_table(src: &mut Src, case: &mut Case) {
    let all = c24_spellings();
    let i = src.below(all.len() as u64) as usize;
    case.set_input(format!("{:?}", all[i]));
    one_spelling(&all[i], case);
}
/// Texts near operators, and the tokens of any text.
fn c24_near(src: &mut Src, case: &mut Case) {
    let all = c24_spellings();
    let s: String = match src.below(3) {
        0 => {
            let mut s: Vec<char> = src.pick(&all).chars().collect();
            let c = *src.pick(&['<', '>', '=', '!', '&', '|', '+', '-', 'i', 'n', ' ', 'e', '\u{130}', '\0', '/', '*', '%', '^', '~']);
            let at = src.below(s.len() as u64 + 1) as usize;
            match src.below(3) {
                0 => s.insert(at, c),
                1 if at < s.len() => s[at] = c,
                _ if at < s.len() => {
                    s.remove(at);
                }
                _ => {}
            }
            s.into_iter().collect()
        }
        1 => {
            let n = src.count(3, 6);
            (0..n).map(|_| *src.pick(&['<', '>', '=', '!', '&', '|', '+', '-', '*', '/', '%', '^', '~', '?', ':', '.'])).collect()
        }
        _ => crate::lexgen::soup(src, true),
    };
    case.set_input(format!("{:?}", s));
    one_spelling(&s, case);
    case.nontrivial = s.chars().count() > 1;
}
/// Every pair of infix operators, by precedence.
fn c24_precedence(src: &mut Src, case: &mut Case) {
    let mut all: Vec<(&'static str, u32, u32, u32)> = vec![];
    for (s, t, c) in binops() {
        all.push((s, c, t.precedence(), op(t).precedence()));
    }
    for t in astgen::LOGOPS {
        all.push((ast::logop_text(t), if *t == LogopTag::Or { 1 } else { 2 }, t.precedence(), op(t.clone()).precedence()));
    }
    for t in astgen::ASSOPS {
        all.push((ast::assop_text(t), 0, t.precedence(), op(t.clone()).precedence()));
    }
    let n = all.len() as u64;
    let i = src.below(n * n);
    let (a, b) = (all[(i / n) as usize], all[(i % n) as usize]);
    case.set_input(format!("{} and {}", a.0, b.0));
    case.nontrivial = a.0 != b.0;
    if a.2 != a.3 {
        return case.fail(format!("the tag has precedence {}, the operator {}", a.2, a.3));
    }
    if a.1.cmp(&b.1) != a.2.cmp(&b.2) {
        case.fail(format!("precedences {} and {}", a.2, b.2));
    }
}

// ------------------------------------------------------------------ C25

/// What equality ignores besides the source of literals: no arguments and an empty list of them.
struct Args;
impl Vis for Args {
    fn expr(&mut self, e: &mut Expr) {
        if let Expr::New(_, _, ref mut a) = *e {
            if a.is_none() {
                *a = Some(vec![]);
            }
        }
    }
}
fn meaning<T: Walk + Clone>(t: &T) -> String {
    let mut t = t.clone();
    t.walk(&mut Args);
    ast::dump(&mut t, Detail::Tracked)
}

/// A change at one place, counted in the order of the traversal.
struct Mutate<'s> {
    src: &'s mut Src,
    left: i64,
    what: Option<&'static str>,
}
impl<'s> Mutate<'s> {
    fn now(&mut self) -> bool {
        self.left -= 1;
        self.left == -1 && self.what.is_none()
    }
}
impl<'s> Vis for Mutate<'s> {
    fn loc(&mut self, l: &mut Option<Span>) {
        if self.now() {
            *l = match *l {
                None => Some(Span { start: posn(1), end: posn(2) }),
                Some(s) => match self.src.below(3) {
                    0 => None,
                    1 => Some(Span { start: Posn { offset: s.start.offset + 1, ..s.start }, ..s }),
                    _ => Some(Span { end: Posn { column: s.end.column + 1, ..s.end }, ..s }),
                },
            };
            self.what = Some("location");
        }
    }
    fn semi(&mut self, s: &mut Semi) {
        if self.now() {
            *s = match *s {
                Semi::Inserted => Semi::Explicit(None),
                Semi::Explicit(None) => Semi::Inserted,
                Semi::Explicit(Some(p)) => Semi::Explicit(Some(Posn { offset: p.offset + 1, ..p })),
            };
            self.what = Some("terminator");
        }
    }
    fn name(&mut self, n: &mut Name) {
        if self.now() {
            *n = Name::from(format!("{}x", n.clone().into_string()));
            self.what = Some("name");
        }
    }
    fn text(&mut self, s: &mut String) {
        if self.now() {
            s.push('x');
            self.what = Some("text");
        }
    }
    fn num(&mut self, n: &mut NumberLiteral) {
        if self.now() {
            if self.src.bool() {
                n.source = None;
                self.what = Some("source of a number");
            } else {
                n.value = if n.value > 1e300 { 1.0 } else { n.value * 2.0 + 1.0 };
                self.what = Some("value of a number");
            }
        }
    }
    fn strl(&mut self, s: &mut StringLiteral) {
        if self.now() {
            if self.src.bool() {
                s.source = None;
                self.what = Some("source of a string");
            } else {
                s.value.push('x');
                self.what = Some("value of a string");
            }
        }
    }
    fn re(&mut self, r: &mut RegExpLiteral) {
        if self.now() {
            match self.src.below(5) {
                0 => {
                    r.flags.reverse();
                    self.what = Some("order of flags");
                }
                1 | 2 if !r.flags.is_empty() => {
                    // a flag once more, in place of another one or beside it
                    let f = *self.src.pick(&r.flags);
                    let at = self.src.below(r.flags.len() as u64 + 1) as usize;
                    if at < r.flags.len() && self.src.bool() {
                        r.flags[at] = f;
                    } else {
                        r.flags.insert(at, f);
                    }
                    self.what = Some("flags");
                }
                3 => {
                    r.flags.push('q');
                    self.what = Some("flags");
                }
                _ => {
                    r.pattern.push('x');
                    self.what = Some("pattern");
                }
            }
        }
    }
    fn flag(&mut self, b: &mut bool) {
        if self.now() {
            *b = !*b;
            self.what = Some("flag");
        }
    }
    fn unop(&mut self, o: &mut UnopTag) {
        if self.now() {
            *o = self.src.pick(astgen::UNOPS).clone();
            self.what = Some("unary operator");
        }
    }
    fn binop(&mut self, o: &mut BinopTag) {
        if self.now() {
            *o = self.src.pick(astgen::BINOPS).clone();
            self.what = Some("binary operator");
        }
    }
    fn logop(&mut self, o: &mut LogopTag) {
        if self.now() {
            *o = self.src.pick(astgen::LOGOPS).clone();
            self.what = Some("logical operator");
        }
    }
    fn assop(&mut self, o: &mut AssopTag) {
        if self.now() {
            *o = self.src.pick(astgen::ASSOPS).clone();
            self.what = Some("assignment operator");
        }
    }
    fn expr(&mut self, e: &mut Expr) {
        if self.now() {
            let l = *e.tracking_ref();
            let old = std::mem::replace(e, Expr::Null(None));
            *e = match old {
                Expr::PreInc(l, t) => Expr::PostInc(l, t),
                Expr::PostInc(l, t) => Expr::PreDec(l, t),
                Expr::PreDec(l, t) => Expr::PostDec(l, t),
                Expr::PostDec(l, t) => Expr::PreInc(l, t),
                Expr::True(l) => Expr::False(l),
                Expr::False(l) => Expr::Null(l),
                Expr::This(l) => Expr::NewTarget(l),
                Expr::NewTarget(l) => Expr::This(l),
                Expr::Call(l, f, a) => Expr::New(l, f, Some(a)),
                Expr::New(l, f, Some(a)) => {
                    if self.src.bool() {
                        Expr::Call(l, f, a)
                    } else {
                        Expr::New(l, f, None)
                    }
                }
                Expr::New(l, f, None) => Expr::New(l, f, Some(if self.src.bool() { vec![] } else { vec![ExprListItem::Expr(Expr::Null(None))] })),
                Expr::Binop(l, o, a, b) => Expr::Binop(l, o, b, a),
                Expr::Logop(l, o, a, b) => Expr::Logop(l, o, b, a),
                Expr::Brack(l, a, b) => Expr::Brack(l, b, a),
                Expr::Cond(l, a, b, c) => {
                    if self.src.bool() {
                        Expr::Cond(l, b, a, c)
                    } else {
                        Expr::Cond(l, a, c, b)
                    }
                }
                Expr::Seq(l, v) => Expr::Arr(l, v.into_iter().map(|e| Some(ExprListItem::Expr(e))).collect()),
                Expr::Id(i) => Expr::String(i.location, StringLiteral { source: None, value: i.name.into_string() }),
                Expr::String(l, s) => Expr::Id(Id { location: l, name: Name::from(s.value) }),
                _ => Expr::This(l),
            };
            self.what = Some("expression");
        }
    }
    fn stmt(&mut self, s: &mut Stmt) {
        if self.now() {
            let l = *s.tracking_ref();
            let old = std::mem::replace(s, Stmt::Empty(None));
            *s = match old {
                Stmt::Break(l, i, m) => Stmt::Cont(l, i, m),
                Stmt::Cont(l, i, m) => Stmt::Break(l, i, m),
                Stmt::Throw(l, e, m) => Stmt::Return(l, Some(e), m),
                Stmt::Return(l, Some(e), m) => Stmt::Throw(l, e, m),
                Stmt::Return(l, None, m) => Stmt::Debugger(l, m),
                Stmt::While(l, e, b) => Stmt::With(l, e, b),
                Stmt::With(l, e, b) => Stmt::If(l, e, b, None),
                Stmt::If(l, e, a, Some(b)) => Stmt::If(l, e, b, Some(a)),
                Stmt::For(l, h, a, b, s) => Stmt::For(l, h, b, a, s),
                Stmt::Block(b) => Stmt::Block(Block { location: b.location, items: b.items.into_iter().rev().collect() }),
                _ => Stmt::Empty(l),
            };
            self.what = Some("statement");
        }
    }
    fn list<T: Clone + Walk>(&mut self, v: &mut Vec<T>, _: bool) {
        if self.now() {
            let n = v.len() as u64;
            if n == 0 {
                return;
            }
            let i = self.src.below(n) as usize;
            match self.src.below(3) {
                0 => {
                    v.remove(i);
                }
                1 => {
                    let x = v[i].clone();
                    v.insert(i, x);
                }
                _ => {
                    let j = self.src.below(n) as usize;
                    v.swap(i, j);
                }
            }
            self.what = Some("list");
        }
    }
    fn opt<T: Walk>(&mut self, o: &mut Option<T>, _: bool) {
        if self.now() {
            *o = None;
            self.what = Some("optional part");
        }
    }
}

fn judge<T: Walk + Clone + PartialEq>(a: &T, b: &T, case: &mut Case) {
    let want = meaning(a) == meaning(b);
    case.class(if want { "equal" } else { "different" });
    for (x, y, s) in &[(a, b, "the first to the second"), (b, a, "the second to the first")] {
        if (*x == *y) != want {
            return case.fail(format!("comparing {} says {}, but they are {}", s, if want { "different" } else { "equal" }, if want { "equal" } else { "different" }));
        }
        if (*x != *y) == want {
            return case.fail(format!("{}: != disagrees with ==", s));
        }
    }
}
fn c25_one_change(src: &mut Src, case: &mut Case) {
    let t = wild(src, 25);
    let mut places = Mutate { src, left: i64::max_value(), what: None };
    let mut u = t.clone();
    u.walk(&mut places);
    let n = i64::max_value() - places.left;
    if t != u || u != t {
        return case.fail("a tree differs from its clone");
    }
    let k = src.below(n.max(1) as u64) as i64;
    let what = {
        let mut m = Mutate { src, left: k, what: None };
        u.walk(&mut m);
        m.what
    };
    let (x, y) = (ast::dump(&mut t.clone(), Detail::Full), ast::dump(&mut u, Detail::Full));
    case.set_input(format!("{} in {}", ast::dump_diff(&x, &y).unwrap_or("no change".to_string()), clip(&x)));
    case.nontrivial = what.is_some();
    if let Some(w) = what {
        case.class(w);
    }
    judge(&t, &u, case);
}
/// Small trees of the same few parts: many of them are equal, and most differ in their kind alone.
fn small_expr(i: u64, c: &mut dyn FnMut() -> Expr) -> Expr {
    let mut b = || Box::new(c());
    let t = || AssignTarget::Id(id("a"));
    match i {
        0 => Expr::This(None),
        1 => Expr::Id(id("a")),
        2 => Expr::Arr(None, vec![]),
        3 => Expr::Arr(None, vec![Some(ExprListItem::Expr(*b()))]),
        4 => Expr::Arr(None, vec![None]),
        5 => Expr::Arr(None, vec![Some(ExprListItem::Spread(None, *b()))]),
        6 => Expr::Obj(None, vec![]),
        7 => Expr::Obj(None, vec![Prop::Shorthand(id("a"))]),
        8 => Expr::Obj(None, vec![Prop::Regular(None, PropKey::Id(None, "a".to_string()), PropVal::Init(*b()))]),
        9 => Expr::Seq(None, vec![*b(), *b()]),
        10 => Expr::Unop(None, op(UnopTag::Minus), b()),
        11 => Expr::Unop(None, op(UnopTag::Plus), b()),
        12 => Expr::Binop(None, op(BinopTag::Plus), b(), b()),
        13 => Expr::Binop(None, op(BinopTag::Minus), b(), b()),
        14 => Expr::Logop(None, op(LogopTag::And), b(), b()),
        15 => Expr::Logop(None, op(LogopTag::Or), b(), b()),
        16 => Expr::PreInc(None, Box::new(t())),
        17 => Expr::PostInc(None, Box::new(t())),
        18 => Expr::PreDec(None, Box::new(t())),
        19 => Expr::PostDec(None, Box::new(t())),
        20 => Expr::Assign(None, Patt::Simple(t()), b()),
        21 => Expr::BinAssign(None, op(AssopTag::PlusEq), t(), b()),
        22 => Expr::BinAssign(None, op(AssopTag::MinusEq), t(), b()),
        23 => Expr::Cond(None, b(), b(), b()),
        24 => Expr::Call(None, b(), vec![]),
        25 => Expr::New(None, b(), None),
        26 => Expr::New(None, b(), Some(vec![])),
        27 => Expr::New(None, b(), Some(vec![ExprListItem::Expr(*b())])),
        28 => Expr::Call(None, b(), vec![ExprListItem::Expr(*b())]),
        29 => Expr::Dot(None, b(), DotKey { location: None, value: "a".to_string() }),
        30 => Expr::Brack(None, b(), b()),
        31 => Expr::NewTarget(None),
        32 => Expr::True(None),
        33 => Expr::False(None),
        34 => Expr::Null(None),
        35 => Expr::Number(None, NumberLiteral { source: None, value: 1.0 }),
        36 => Expr::Number(None, NumberLiteral { source: None, value: 2.0 }),
        37 => Expr::RegExp(None, RegExpLiteral { pattern: "a".to_string(), flags: vec!['g', 'i'] }),
        38 => Expr::RegExp(None, RegExpLiteral { pattern: "a".to_string(), flags: vec!['i', 'g'] }),
        39 => Expr::RegExp(None, RegExpLiteral { pattern: "a".to_string(), flags: vec!['i'] }),
        40 => Expr::String(None, str_lit("'a'")),
        41 => Expr::String(None, str_lit("\"\\x61\"")),
        42 => Expr::Fun(Fun { location: None, id: None, params: Params { location: None, list: vec![], rest: None }, body: Body { location: None, dirs: vec![], items: vec![] }, generator: false }),
        43 => Expr::Fun(Fun { location: None, id: None, params: Params { location: None, list: vec![], rest: None }, body: Body { location: None, dirs: vec![], items: vec![] }, generator: true }),
        44 => Expr::Obj(None, vec![Prop::Regular(None, PropKey::String(None, str_lit("'a'")), PropVal::Init(*b()))]),
        45 => Expr::Dot(None, b(), DotKey { location: None, value: "b".to_string() }),
        46 => Expr::Obj(None, vec![Prop::Regular(None, PropKey::Id(None, "a".to_string()), PropVal::Get(None, Body { location: None, dirs: vec![], items: vec![] }))]),
        47 => Expr::RegExp(None, RegExpLiteral { pattern: "b".to_string(), flags: vec!['i'] }),
        48 => Expr::RegExp(None, RegExpLiteral { pattern: "a".to_string(), flags: vec!['i', 'g', 'i'] }),
        49 => Expr::RegExp(None, RegExpLiteral { pattern: "a".to_string(), flags: vec!['g', 'g', 'i'] }),
        50 => Expr::RegExp(None, RegExpLiteral { pattern: "a".to_string(), flags: vec!['i', 'i'] }),
        51 => Expr::RegExp(None, RegExpLiteral { pattern: "a".to_string(), flags: vec!['I'] }),
        52 => Expr::RegExp(None, RegExpLiteral { pattern: "ai".to_string(), flags: vec![] }),
        _ => Expr::Id(id("b")),
    }
}
const SMALL: u64 = 54;
fn c25_pairs(src: &mut Src, case: &mut Case) {
    let i = src.below(SMALL * SMALL);
    let mut leaf = || Expr::Id(id("a"));
    let (a, b) = (small_expr(i / SMALL, &mut leaf), small_expr(i % SMALL, &mut leaf));
    case.set_input(format!("{} and {}", clip(&ast::dump(&mut a.clone(), Detail::Source)), clip(&ast::dump(&mut b.clone(), Detail::Source))));
    case.nontrivial = true;
    judge(&a, &b, case);
    if case.failed() {
        return;
    }
    // one level further down, at every place
    for k in 0..3 {
        case.subcases += 1;
        let wrap = |e: &Expr| -> Expr {
            let e = e.clone();
            match k {
                0 => Expr::New(None, Box::new(e), None),
                1 => Expr::Cond(None, Box::new(Expr::This(None)), Box::new(e), Box::new(Expr::This(None))),
                _ => Expr::Arr(None, vec![None, Some(ExprListItem::Spread(None, e))]),
            }
        };
        judge(&wrap(&a), &wrap(&b), case);
    }
}
fn c25_small(src: &mut Src, case: &mut Case) {
    fn make(src: &mut Src, depth: u32) -> Expr {
        if depth == 0 {
            let i = *src.pick(&[0u64, 1, SMALL - 1, 34]);
            return small_expr(i, &mut || Expr::Null(None));
        }
        let i = src.below(SMALL);
        small_expr(i, &mut || make(src, depth - 1))
    }
    let d = 1 + src.below(2) as u32;
    let a = make(src, d);
    let b = if src.bool() { make(src, d) } else { a.clone() };
    case.set_input(format!("{} and {}", clip(&ast::dump(&mut a.clone(), Detail::Source)), clip(&ast::dump(&mut b.clone(), Detail::Source))));
    case.nontrivial = true;
    judge(&a, &b, case);
}
/// Programs of one or two statements, compared with each other.
fn c25_programs(src: &mut Src, case: &mut Case) {
    let mut one = |src: &mut Src| {
        let mut o = Opts::new(Goal::Script, src.range(0, 4));
        o.wild = true;
        o.plain = true;
        Gen::new(src, o).item()
    };
    let (a, b) = (one(src), one(src));
    case.set_input(format!("{} and {}", clip(&ast::dump(&mut a.clone(), Detail::Source)), clip(&ast::dump(&mut b.clone(), Detail::Source))));
    case.nontrivial = true;
    judge(&a, &b, case);
}

// ------------------------------------------------------------------ C26

#[derive(PartialEq, Debug, Clone, Copy)]
pub enum Part {
    Target,
    Prop,
}
/// Every part that keeps an expression from being a pattern.
pub fn offending(e: &Expr, out: &mut Vec<(Part, Option<Span>)>) {
    match *e {
        Expr::Arr(_, ref xs) => {
            for (i, x) in xs.iter().enumerate() {
                match *x {
                    None => {}
                    Some(ExprListItem::Expr(ref e)) => offending(e, out),
                    Some(ExprListItem::Spread(_, ref e)) if i + 1 == xs.len() => offending(e, out),
                    Some(ExprListItem::Spread(l, _)) => out.push((Part::Target, l)),
                }
            }
        }
        Expr::Obj(_, ref ps) => {
            for p in ps {
                offending_prop(p, out)
            }
        }
        Expr::Id(_) | Expr::Dot(..) | Expr::Brack(..) => {}
        _ => out.push((Part::Target, ast::own_location(e))),
    }
}
fn offending_prop(p: &Prop, out: &mut Vec<(Part, Option<Span>)>) {
    match *p {
        Prop::Shorthand(_) => {}
        Prop::Regular(_, _, PropVal::Init(ref e)) => offending(e, out),
        Prop::Regular(l, _, _) => out.push((Part::Prop, l)),
        Prop::Method(ref f) => out.push((Part::Prop, f.location)),
    }
}
pub fn at_fault(e: &cover::Error, allowed: &[(Part, Option<Span>)]) -> Option<String> {
    let got = match *e {
        cover::Error::InvalidAssignTarget(l) => (Part::Target, l),
        cover::Error::InvalidPropPatt(l) => (Part::Prop, l),
    };
    if allowed.contains(&got) {
        None
    } else {
        Some(format!("the error blames a {:?} at {}, which is none of {:?}", got.0, ast::span_text(&got.1), allowed))
    }
}
fn c26_convert(src: &mut Src, case: &mut Case) {
    let mut e = near_target(src, 4);
    if src.chance(1, 3) {
        // an assignment inside, which would be a default
        e = Expr::Arr(None, vec![Some(ExprListItem::Expr(e)), None]);
        if src.bool() {
            e = Expr::Obj(None, vec![Prop::Regular(None, PropKey::Id(None, "k".to_string()), PropVal::Init(e))]);
        }
    }
    track(src, &mut e);
    case.set_input(clip(&ast::dump(&mut e, Detail::Full)));
    case.nontrivial = size(&mut e) > 3;
    let mut bad = vec![];
    offending(&e, &mut bad);
    case.class(if bad.is_empty() { "pattern" } else { "no pattern" });
    // to a pattern
    match (patt_of(&e), e.clone().into_assign_patt()) {
        (Some(mut w), Ok(mut g)) => {
            if let Some(d) = same(&mut w, &mut g, Detail::Full) {
                return case.fail(format!("as a pattern, {}", d));
            }
            if !bad.is_empty() {
                return case.fail("the harness disagrees with itself");
            }
        }
        (None, Err(f)) => {
            if let Some(d) = at_fault(&f, &bad) {
                return case.fail(d);
            }
            let text = f.to_string();
            let want = match f {
                cover::Error::InvalidAssignTarget(_) => "invalid assignment pattern",
                cover::Error::InvalidPropPatt(_) => "invalid object property in assignment pattern",
            };
            if text != want {
                return case.fail(format!("the error reads {:?}", text));
            }
        }
        (Some(_), Err(f)) => return case.fail(format!("refused: {:?}", f)),
        (None, Ok(mut g)) => return case.fail(format!("no pattern, but converted to {}", clip(&ast::dump(&mut g, Detail::Value)))),
    }
    // to a target
    match (target_of(&e), e.clone().into_assign_target()) {
        (Some(mut w), Ok(mut g)) => {
            if let Some(d) = same(&mut w, &mut g, Detail::Full) {
                return case.fail(format!("as a target, {}", d));
            }
        }
        (None, Err(f)) => {
            if let Some(d) = at_fault(&f, &[(Part::Target, ast::own_location(&e))]) {
                return case.fail(format!("as a target, {}", d));
            }
        }
        (Some(_), Err(f)) => return case.fail(format!("as a target, refused: {:?}", f)),
        (None, Ok(_)) => return case.fail("no target, but converted"),
    }
    // its properties, one by one
    if let Expr::Obj(_, ref ps) = e {
        for p in ps {
            let mut bad = vec![];
            offending_prop(p, &mut bad);
            case.subcases += 1;
            match p.clone().into_assign_prop() {
                Ok(mut g) => {
                    if !bad.is_empty() {
                        return case.fail("a property that is no pattern is converted");
                    }
                    let one = patt_of(&Expr::Obj(None, vec![p.clone()]));
                    if let Some(Patt::Compound(CompoundPatt::Obj(_, mut w))) = one {
                        if let Some(d) = same(&mut w[0], &mut g, Detail::Full) {
                            return case.fail(format!("as a property pattern, {}", d));
                        }
                    }
                }
                Err(f) => {
                    if let Some(d) = at_fault(&f, &bad) {
                        return case.fail(format!("of a property, {}", d));
                    }
                }
            }
        }
    }
}

// ------------------------------------------------------------------ C31

fn opt_loc(src: &mut Src) -> Option<Span> {
    let mut f = 2 * src.below(1000) as u32;
    any_loc(src, &mut f)
}
fn join(a: Option<Span>, b: Option<Span>) -> Option<Span> {
    match (a, b) {
        (Some(a), Some(b)) => Some(Span { start: a.start, end: b.end }),
        _ => None,
    }
}
fn c31_declarators(src: &mut Src, case: &mut Case) {
    let mut o = Opts::new(Goal::Script, src.range(1, 8));
    o.wild = true;
    o.plain = true;
    let mut patt = Gen::new(src, o.clone()).wild_patt(3);
    let mut value = Gen::new(src, o).expr();
    track(src, &mut patt);
    track(src, &mut value);
    case.set_input(format!("{} = {}", clip(&ast::dump(&mut patt, Detail::Full)), clip(&ast::dump(&mut value, Detail::Full))));
    case.nontrivial = true;
    let at = join(ast::own_location(&patt), ast::own_location(&value));
    let want = |p: &Patt<Id>, v: Option<&Expr>| -> Option<Dtor> {
        match (p, v) {
            (Patt::Simple(i), None) => Some(Dtor::Simple(i.location, i.clone(), None)),
            (Patt::Simple(i), Some(v)) => Some(Dtor::Simple(at, i.clone(), Some(v.clone()))),
            (Patt::Compound(p), Some(v)) => Some(Dtor::Compound(at, p.clone(), v.clone())),
            _ => None,
        }
    };
    let cwant = ConstDtor { location: at, patt: patt.clone(), value: value.clone() };
    macro_rules! is {
        ($name:expr, $want:expr, $got:expr) => {{
            let (mut w, mut g) = ($want, $got);
            case.subcases += 1;
            if let Some(d) = same(&mut w, &mut g, Detail::Full) {
                return case.fail(format!("{}: {}", $name, d));
            }
        }};
    }
    let full = want(&patt, Some(&value)).unwrap();
    is!("from_init", full.clone(), Dtor::from_init(patt.clone(), value.clone()));
    is!("from_init (const)", cwant.clone(), ConstDtor::from_init(patt.clone(), value.clone()));
    match patt {
        Patt::Simple(ref i) => {
            is!("from_simple_init", full.clone(), Dtor::from_simple_init(i.clone(), value.clone()));
            is!("from_simple_init (const)", cwant.clone(), ConstDtor::from_simple_init(i.clone(), value.clone()));
            is!("into_patt", patt.clone(), i.clone().into_patt());
            is!("into_expr", Expr::Id(i.clone()), i.clone().into_expr());
            is!("into_dtor", Dtor::Simple(i.location, i.clone(), None), i.clone().into_dtor());
            is!("Id::new", i.clone(), Id::new(i.name.clone(), i.location));
        }
        Patt::Compound(ref p) => {
            is!("from_compound_init", full.clone(), Dtor::from_compound_init(p.clone(), value.clone()));
            is!("from_compound_init (const)", cwant.clone(), ConstDtor::from_compound_init(p.clone(), value.clone()));
        }
    }
    if patt.is_simple() != if let Patt::Simple(_) = patt { true } else { false } {
        return case.fail("is_simple is wrong");
    }
    match Dtor::from_init_opt(patt.clone(), Some(value.clone())) {
        Ok(d) => is!("from_init_opt with a value", full, d),
        Err(_) => return case.fail("from_init_opt with a value is refused"),
    }
    match ConstDtor::from_init_opt(patt.clone(), Some(value.clone())) {
        Ok(d) => is!("from_init_opt (const) with a value", cwant, d),
        Err(_) => return case.fail("from_init_opt (const) with a value is refused"),
    }
    match (want(&patt, None), Dtor::from_init_opt(patt.clone(), None)) {
        (Some(w), Ok(d)) => is!("from_init_opt without a value", w, d),
        (None, Err(p)) => is!("from_init_opt, refused", patt.clone(), p),
        (_, d) => return case.fail(format!("from_init_opt without a value gives {:?}", d)),
    }
    match ConstDtor::from_init_opt(patt.clone(), None) {
        Err(p) => is!("from_init_opt (const), refused", patt.clone(), p),
        Ok(_) => return case.fail("a const without a value"),
    }
}
fn c31_directives(src: &mut Src, case: &mut Case) {
    let mut o = Opts::new(Goal::Script, src.range(0, 6));
    o.wild = true;
    let mut item = match src.below(4) {
        0 | 1 => {
            let text = crate::lexgen::string(src, &mut vec![]).text;
            StmtListItem::Stmt(Stmt::Expr(None, Expr::String(None, str_lit(&text)), Semi::Inserted))
        }
        2 => StmtListItem::Stmt(Stmt::Expr(None, Gen::new(src, o).expr(), Semi::Inserted)),
        _ => Gen::new(src, o).item(),
    };
    track(src, &mut item);
    case.set_input(clip(&ast::dump(&mut item, Detail::Full)));
    let want = match item {
        StmtListItem::Stmt(Stmt::Expr(l, Expr::String(_, ref s), m)) => Some(Dir { location: l, string: s.clone(), semi: m }),
        _ => None,
    };
    case.nontrivial = true;
    case.class(if want.is_some() { "directive" } else { "none" });
    macro_rules! both {
        ($v:expr, $name:expr) => {{
            let mut v = $v;
            if v.is_directive() != want.is_some() {
                return case.fail(format!("{}: is_directive says {}", $name, v.is_directive()));
            }
            match (want.clone(), v.to_directive()) {
                (None, None) => {}
                (Some(mut w), Some(mut g)) => {
                    if let Some(d) = same(&mut w, &mut g, Detail::Full) {
                        return case.fail(format!("{}: to_directive: {}", $name, d));
                    }
                }
                (_, g) => return case.fail(format!("{}: to_directive gives {:?}", $name, g)),
            }
            match (want.clone(), v.clone().into_directive()) {
                (None, Err(mut g)) => {
                    if let Some(d) = same(&mut v, &mut g, Detail::Full) {
                        return case.fail(format!("{}: into_directive gives back something else: {}", $name, d));
                    }
                }
                (Some(mut w), Ok(mut g)) => {
                    if let Some(d) = same(&mut w, &mut g, Detail::Full) {
                        return case.fail(format!("{}: into_directive: {}", $name, d));
                    }
                }
                (_, g) => return case.fail(format!("{}: into_directive gives {:?}", $name, g)),
            }
        }};
    }
    both!(item.clone(), "item");
    if let StmtListItem::Stmt(ref s) = item {
        both!(s.clone(), "statement");
    }
    let (mut w, mut g) = (ModItem::StmtListItem(item.clone()), item.into_mod_item());
    if let Some(d) = same(&mut w, &mut g, Detail::Full) {
        return case.fail(format!("into_mod_item: {}", d));
    }
    if let Some(d) = want {
        // the text of the directive, as written between the quotes
        let text = match d.string.source {
            Some(ref s) => s[1..s.len() - 1].to_string(),
            None => d.string.value.clone(),
        };
        if d.pragma() != text {
            return case.fail(format!("pragma is {:?}", d.pragma()));
        }
        let bare = Dir { location: None, string: StringLiteral { source: None, value: d.string.value.clone() }, semi: d.semi };
        if bare.pragma() != d.string.value {
            case.fail(format!("pragma without a source is {:?}", bare.pragma()));
        }
    }
}

// ------------------------------------------------------------------ C38

/// Texts of two values: the same exactly when they mean the same, in both layouts of the text.
fn texts<T: std::fmt::Debug>(a: &T, b: &T, want: bool, case: &mut Case) {
    let (x, y) = (format!("{:?}", a), format!("{:?}", b));
    if (x == y) != want {
        return case.fail(format!("{} but the texts are {}: {} and {}", if want { "the same" } else { "different" }, if want { "different" } else { "the same" }, clip(&x), clip(&y)));
    }
    let (x, y) = (format!("{:#?}", a), format!("{:#?}", b));
    if (x == y) != want {
        case.fail(format!("{} but the long texts are {}", if want { "the same" } else { "different" }, if want { "different" } else { "the same" }));
    }
}
/// Trees without their locations.
fn shown<T: Walk + Clone + std::fmt::Debug>(a: &T, b: &T, case: &mut Case) {
    let (mut a, mut b) = (a.clone(), b.clone());
    ast::erase(&mut a);
    ast::erase(&mut b);
    let want = meaning(&a) == meaning(&b);
    case.class(if want { "same" } else { "different" });
    texts(&a, &b, want, case);
}
fn pair_input<T: Walk + Clone>(a: &T, b: &T) -> String {
    format!("{} and {}", clip(&ast::dump(&mut a.clone(), Detail::Source)), clip(&ast::dump(&mut b.clone(), Detail::Source)))
}
fn c38_one_change(src: &mut Src, case: &mut Case) {
    let t = wild(src, 20);
    let mut u = t.clone();
    let mut places = Mutate { src, left: i64::max_value(), what: None };
    u.walk(&mut places);
    let n = i64::max_value() - places.left;
    let k = src.below(n.max(1) as u64) as i64;
    let what = {
        let mut m = Mutate { src, left: k, what: None };
        u.walk(&mut m);
        m.what
    };
    let (x, y) = (ast::dump(&mut t.clone(), Detail::Full), ast::dump(&mut u.clone(), Detail::Full));
    case.set_input(format!("{} in {}", ast::dump_diff(&x, &y).unwrap_or("no change".to_string()), clip(&x)));
    case.nontrivial = what.is_some();
    if let Some(w) = what {
        case.class(w);
    }
    if meaning(&t) == meaning(&u) {
        // with all of their locations
        texts(&t, &u, true, case);
    }
    if !case.failed() {
        shown(&t, &u, case);
    }
}
fn c38_pairs(src: &mut Src, case: &mut Case) {
    let i = src.below(SMALL * SMALL);
    let mut leaf = || Expr::Id(id("a"));
    let (a, b) = (small_expr(i / SMALL, &mut leaf), small_expr(i % SMALL, &mut leaf));
    case.set_input(pair_input(&a, &b));
    case.nontrivial = true;
    shown(&a, &b, case);
}
fn c38_small(src: &mut Src, case: &mut Case) {
    fn make(src: &mut Src, depth: u32) -> Expr {
        if depth == 0 {
            let i = *src.pick(&[0u64, 1, SMALL - 1, 34]);
            return small_expr(i, &mut || Expr::Null(None));
        }
        let i = src.below(SMALL);
        small_expr(i, &mut || make(src, depth - 1))
    }
    let d = 1 + src.below(2) as u32;
    let a = make(src, d);
    let mut b = if src.chance(1, 4) { make(src, d) } else { a.clone() };
    if src.bool() {
        let mut m = Mutate { src, left: 0, what: None };
        m.left = m.src.below(24) as i64;
        b.walk(&mut m);
    }
    case.set_input(pair_input(&a, &b));
    case.nontrivial = true;
    shown(&a, &b, case);
}
fn c38_programs(src: &mut Src, case: &mut Case) {
    let mut one = |src: &mut Src| {
        let mut o = Opts::new(Goal::Script, src.range(0, 4));
        o.wild = true;
        o.plain = true;
        Gen::new(src, o).item()
    };
    let (a, b) = (one(src), one(src));
    case.set_input(pair_input(&a, &b));
    case.nontrivial = true;
    shown(&a, &b, case);
}

/// Leaves that are alike in what they spell.
fn kin_leaf(i: u64) -> Expr {
    let num = |v| Expr::Number(None, NumberLiteral { source: None, value: v });
    let text = |s: &str| Expr::String(None, StringLiteral { source: None, value: s.to_string() });
    let key = |k| Expr::Obj(None, vec![Prop::Regular(None, k, PropVal::Init(Expr::Null(None)))]);
    let word = |s: &str| Expr::Id(Id { location: None, name: Name::String(s.to_string()) });
    match i {
        0 => num(1.0),
        1 => text("1"),
        2 => text("1.0"),
        3 => id_expr("a"),
        4 => text("a"),
        5 => Expr::True(None),
        6 => word("true"),
        7 => text("true"),
        8 => Expr::This(None),
        9 => word("This"),
        10 => Expr::Null(None),
        11 => text("null"),
        12 => text("Null"),
        13 => Expr::RegExp(None, RegExpLiteral { pattern: "a".to_string(), flags: vec![] }),
        14 => text("/a/"),
        15 => num(0.0),
        16 => text(""),
        17 => key(PropKey::Id(None, "a".to_string())),
        18 => key(PropKey::String(None, StringLiteral { source: None, value: "a".to_string() })),
        19 => key(PropKey::String(None, StringLiteral { source: None, value: "1".to_string() })),
        20 => key(PropKey::Number(None, NumberLiteral { source: None, value: 1.0 })),
        21 => key(PropKey::Id(None, "1".to_string())),
        22 => Expr::Unop(None, op(UnopTag::Plus), Box::new(num(1.0))),
        23 => Expr::Unop(None, op(UnopTag::Minus), Box::new(num(1.0))),
        24 => num(16777216.0),
        25 => num(16777217.0),
        26 => Expr::Id(Id { location: None, name: Name::from("get".to_string()) }),
        27 => text("get"),
        28 => Expr::Dot(None, Box::new(id_expr("a")), DotKey { location: None, value: "a".to_string() }),
        29 => Expr::Brack(None, Box::new(id_expr("a")), Box::new(text("a"))),
        30 => Expr::Brack(None, Box::new(id_expr("a")), Box::new(id_expr("a"))),
        31 => Expr::Seq(None, vec![id_expr("a")]),
        32 => Expr::Arr(None, vec![Some(ExprListItem::Expr(id_expr("a")))]),
        _ => Expr::Call(None, Box::new(id_expr("a")), vec![ExprListItem::Expr(id_expr("a"))]),
    }
}
fn id_expr(s: &str) -> Expr {
    Expr::Id(id(s))
}
const KIN: u64 = 34;
fn kin_pair(src: &mut Src, case: &mut Case) -> (Expr, Expr) {
    let i = src.below(3 * SMALL * KIN * KIN);
    let (k, x, y) = (i / (KIN * KIN), i / KIN % KIN, i % KIN);
    let (k, hole) = (k / 3, k % 3);
    // one place of the three at most has the leaf
    let make = |leaf: u64| {
        let mut n = 0;
        small_expr(k, &mut || {
            n += 1;
            if n == hole + 1 { kin_leaf(leaf) } else { Expr::This(None) }
        })
    };
    let (a, b) = (make(x), make(y));
    case.set_input(pair_input(&a, &b));
    case.nontrivial = x != y;
    (a, b)
}
fn c25_kin(src: &mut Src, case: &mut Case) {
    let (a, b) = kin_pair(src, case);
    judge(&a, &b, case);
}
fn c38_kin(src: &mut Src, case: &mut Case) {
    let (a, b) = kin_pair(src, case);
    shown(&a, &b, case);
}

/// What a token means, however it is written.
fn token_meaning(t: &TokenData) -> String {
    match *t {
        TokenData::Number(ref n) => format!("num {:016x}", n.value.to_bits()),
        TokenData::String(ref s) => format!("str {:?}", s.value),
        TokenData::RegExp(ref r) => {
            let mut f = r.flags.clone();
            f.sort();
            format!("re {:?} {:?}", r.pattern, f)
        }
        ref t => tok::tok_dump(t),
    }
}
fn c38_lexeme(src: &mut Src) -> String {
    use crate::lexgen;
    match src.below(8) {
        0 => src.pick(tok::PUNCS).to_string(),
        1 => src.pick(tok::RESERVED).0.to_string(),
        2 => src.pick(tok::ATOMS).0.to_string(),
        3 => lexgen::near_word(src),
        4 => src.pick(&["1", "1.0", "1e0", "0x1", "0b1", "0o1", "01", ".1e1", "10", "8", "010", "0", "0.0", "1e999", "2e999", "16", "0x10"]).to_string(),
        5 => src.pick(&["'a'", "\"a\"", "'\\x61'", "'\\u{61}'", "'\\141'", "'b'", "''", "\"\"", "'1'", "'\\\n'", "'a '", "'A'"]).to_string(),
        6 => src.pick(&["/a/gi", "/a/ig", "/a/g", "/a/", "/b/gi", "/a/ggi", "/a/gii", "/ag/i", "/a/I", "/[/]/", "/\\//", "/a/yumig", "/a/gimuy"]).to_string(),
        _ => lexgen::lexeme(src).text,
    }
}
fn any_token(src: &mut Src) -> Token {
    loop {
        let text = c38_lexeme(src);
        // a slash can start a regular expression or stand for itself
        let cs: Vec<char> = text.chars().collect();
        let op = text.len() < 3 && text.starts_with('/');
        let l = lexdrv::lex(&cs, |_| op);
        if l.err.is_none() && l.toks.len() == 2 {
            return l.toks[0].clone();
        }
        if src.exhausted() {
            return token_of("a").unwrap();
        }
    }
}
fn c38_tokens(src: &mut Src, case: &mut Case) {
    let mut a = any_token(src);
    let mut b = any_token(src);
    case.nontrivial = true;
    if let TokenData::RegExp(ref r) = a.value {
        if src.bool() {
            let mut r = r.clone();
            r.flags.reverse();
            b.value = TokenData::RegExp(r);
        }
    }
    if src.chance(1, 4) {
        b.value = a.value.clone();
        if let TokenData::Number(ref mut n) = b.value {
            n.source = None;
        }
        if let TokenData::String(ref mut s) = b.value {
            s.source = None;
        }
    }
    case.set_input(format!("{} and {}", tok::tok_dump(&a.value), tok::tok_dump(&b.value)));
    let want = token_meaning(&a.value) == token_meaning(&b.value);
    case.class(if want { "same" } else { "different" });
    if (a.value == b.value) != want || (b.value == a.value) != want || (a.value != b.value) == want {
        return case.fail(format!("the values are {}, but equality says otherwise", if want { "the same" } else { "different" }));
    }
    texts(&a.value, &b.value, want, case);
    if case.failed() {
        return;
    }
    // and where it stands
    a.location = Span { start: posn(src.below(4) as u32), end: posn(20 + src.below(3) as u32) };
    b.location = Span { start: posn(src.below(4) as u32), end: posn(20 + src.below(3) as u32) };
    a.newline = src.bool();
    b.newline = src.bool();
    if src.bool() {
        b.location = a.location;
        b.newline = a.newline;
    }
    let place = |t: &Token| (lexdrv::p3(&t.location.start), lexdrv::p3(&t.location.end), t.newline);
    let want = want && place(&a) == place(&b);
    if (a == b) != want {
        return case.fail(format!("tokens at {:?} and {:?}: {}", place(&a), place(&b), if want { "same, but compare different" } else { "different, but compare equal" }));
    }
    texts(&a, &b, want, case);
}
fn c38_places(src: &mut Src, case: &mut Case) {
    let mut one = |src: &mut Src| {
        let top = *src.pick(&[3u64, 12, 1000, 4_000_000_000]);
        Posn { offset: src.below(top) as u32, line: src.below(top) as u32, column: src.below(top) as u32 }
    };
    let (p, q) = (one(src), one(src));
    case.nontrivial = p.line != p.column;
    case.set_input(format!("{:?} and {:?}", lexdrv::p3(&p), lexdrv::p3(&q)));
    let text = |p: &Posn| format!("{}:{}", p.line as u64 + 1, p.column as u64 + 1);
    for x in &[p, q] {
        if format!("{:?}", x) != text(x) {
            return case.fail(format!("a position shows as {:?}, not {}", x, text(x)));
        }
    }
    let want = format!("{}..{}", text(&p), text(&q));
    let s = Span { start: p, end: q };
    if format!("{:?}", s) != want {
        return case.fail(format!("a span shows as {:?}, not {}", s, want));
    }
    let same = lexdrv::p3(&p) == lexdrv::p3(&q);
    if (p == q) != same || (p != q) == same {
        return case.fail("positions compare wrongly");
    }
    for (r, what) in &[(Posn { offset: p.offset + 1, ..p }, "offset"), (Posn { line: p.line + 1, ..p }, "line"), (Posn { column: p.column + 1, ..p }, "column")] {
        if *r == p || (Span { start: *r, end: q }) == s {
            return case.fail(format!("another {} compares equal", what));
        }
    }
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C22",
            rule: "a tree of more than twelve nodes, or a single node kind, or two different layouts",
            subs: vec![
                sub("untracking erases locations", c22_erases, 150000, 1500000),
                sub("untracking parts", c22_parts, 100000, 500000),
                sub("untracking program units", c22_units, 75000, 500000),
                sub("two layouts of one program", c22_layouts, 100000, 1000000),
            ],
            assumptions: vec![],
        },
        Check {
            id: "C23",
            rule: "a tree of more than five located nodes, or two locations that are there",
            subs: vec![sub("reading and writing locations", c23_access, 300000, 1500000), sub("program units", c23_units, 100000, 500000), sub("joining locations", c23_join, 200000, 1000000)],
            assumptions: vec![],
        },
        Check {
            id: "C24",
            rule: "the spelling of an operator, or a text of more than one character, or a pair of different operators",
            subs: vec![
                enumerate("all spellings", c24_table, c24_spellings().len() as u64),
                enumerate("all pairs by precedence", c24_precedence, 34 * 34),
                sub("texts near operators", c24_near, 400000, 2000000),
            ],
            assumptions: vec![],
        },
        Check {
            id: "C25",
            rule: "a pair of trees, one changed at a single place or drawn from a small universe",
            subs: vec![
                sub("a single change", c25_one_change, 400000, 2000000),
                enumerate("all pairs of small expressions", c25_pairs, SMALL * SMALL),
                enumerate("all places of kindred leaves", c25_kin, 3 * SMALL * KIN * KIN),
                sub("small expressions", c25_small, 200000, 1000000),
                sub("small statements", c25_programs, 200000, 1000000),
            ],
            assumptions: vec!["the library identifies new x with new x() by design"],
        },
        Check {
            id: "C26",
            rule: "an expression of more than three nodes",
            subs: vec![sub("expressions as patterns and targets", c26_convert, 600000, 4000000)],
            assumptions: vec!["where several parts offend, the error may name any of them"],
        },
        Check {
            id: "C31",
            rule: "a declarator, or a statement",
            subs: vec![sub("declarators", c31_declarators, 200000, 1000000), sub("directives", c31_directives, 200000, 1000000)],
            assumptions: vec![],
        },
        Check {
            id: "C38",
            rule: "a pair of trees or tokens, or a position whose line is not its column",
            subs: vec![
                sub("a single change", c38_one_change, 150000, 1000000),
                enumerate("all pairs of small expressions", c38_pairs, SMALL * SMALL),
                enumerate("all places of kindred leaves", c38_kin, 3 * SMALL * KIN * KIN),
                sub("small expressions", c38_small, 150000, 1000000),
                sub("small statements", c38_programs, 100000, 1000000),
                sub("pairs of tokens", c38_tokens, 200000, 1000000),
                sub("positions and spans", c38_places, 50000, 500000),
            ],
            assumptions: vec!["the library identifies new x with new x() by design", "numbers are neither NaN nor negative zero, which no literal denotes"],
        },
    ]
}
