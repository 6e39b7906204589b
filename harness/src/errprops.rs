//! Property C32: what the errors of the parser say.
use crate::ast;
use crate::astgen::{self, Gen, Goal, Opts};
use crate::astprops::{at_fault, offending, Part};
use crate::engine::*;
use crate::lexdrv;
use crate::parsedrv::*;
use crate::parseprops::{c14_tree, c15_tree, near_target, patt_of, span_at, target_of};
use crate::print::{self, level, Lay, Printer, Style};
use crate::scope::{self, At, Role};
use easter::cover;
use easter::id::Id;
use easter::stmt::{Body, Script, Stmt, StmtListItem};
use esprit::error::Error;
use joker::token::{Token, TokenData};
use joker::track::{Span, TrackingRef};
use joker::word::{Atom, Name, Reserved};
use std::error::Error as StdError;

fn same_later(goal: Goal, text: &str, want: &Result<Script, Error>, case: &mut Case) {
    match (want, parse_later(goal, text)) {
        (Err(a), Err(ref b)) if a == b => {}
        (Err(a), Err(b)) => case.fail(format!("asked for the goal later, the error is {:?} instead of {:?}", b, a)),
        (Err(_), Ok(_)) => case.fail("asked for the goal later, it is accepted"),
        (Ok(_), _) => {}
    }
}

// ------------------------------------------------------------------ faults by template

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Break,
    Continue,
    NoLabel,
    NoLoop,
    LabelTwice,
    Return,
    /// a word reserved in strict code
    Word,
    /// a binding of eval or arguments
    Bind,
    /// await in a module
    Await,
    With,
    Default,
    Throw,
    Try,
    Target,
}
use Kind::*;

/// The place to blame stands between « and »; W is a word.
static FAULTS: &[(Kind, &str)] = &[
    (Break, "«break»;"), (Break, "«break»\n"), (Break, "if (a) «break»; else ;"), (Break, "«break» // c\n label;"), (Break, "if (a) ; else «break»\n"),
    (Break, "{ «break» }"), (Break, "n: «break»;"), (Break, "n: { «break» }"), (Break, "do ; while (a) «break»;"), (Break, "while (a) ; «break»;"),
    (Break, "switch (a) { case 1: break } «break»;"), (Break, "try { a } catch (e) { «break»; }"),
    (Continue, "«continue»;"), (Continue, "«continue»\n"), (Continue, "switch (s) { case 1: «continue»; }"), (Continue, "switch (s) { default: b; «continue» }"),
    (Continue, "n: { «continue» }"), (Continue, "if (a) «continue»\n else b;"), (Continue, "for (;;) ; «continue»;"), (Continue, "for (k in o) continue; «continue»;"),
    (NoLabel, "break «W»;"), (NoLabel, "continue «W»;"), (NoLabel, "for (;;) { break «W» }"), (NoLabel, "while (a) continue «W»\n"), (NoLabel, "W: ; break «W»;"),
    (NoLabel, "W: { function f() { break «W»; } }"), (NoLabel, "W: for (;;) { x = function () { continue «W» } }"), (NoLabel, "W: while (a) ({ get p() { break «W» } });"),
    (NoLabel, "W: while (a) ; while (a) continue «W»;"), (NoLabel, "break /* c */ «W»;"), (NoLabel, "WW: for (;;) break «W»;"), (NoLabel, "switch (a) { case 1: W: ; break «W»; }"),
    (NoLoop, "W: { continue «W»; }"), (NoLoop, "W: for (;;) { WW: { continue «WW»; } }"), (NoLoop, "W: switch (s) { default: continue «W» }"), (NoLoop, "W: WW: { while (a) continue «W»; }"),
    (NoLoop, "W: if (a) while (b) continue «W»\n"), (NoLoop, "W: try { for (;;) continue «W» } finally { }"), (NoLoop, "W: continue «W»;"), (NoLoop, "W: { WW: for (;;) { continue WW; continue «W» } }"),
    (LabelTwice, "W: { «W»: ; }"), (LabelTwice, "W: «W»: ;"), (LabelTwice, "W: WW: «W»: for (;;) break W;"), (LabelTwice, "W: for (;;) { if (a) «W»: b; }"), (LabelTwice, "W: switch (a) { case 1: «W»: ; }"),
    (LabelTwice, "W: while (a) «W»: while (b) continue W;"), (LabelTwice, "WW: { W: { } W: { } «WW»: ; }"), (LabelTwice, "W: do «W»: ; while (a)"), (LabelTwice, "W: try { } finally { «W» : ; }"),
    (Return, "«return»\n"), (Return, "«return;»"), (Return, "«return a;»"), (Return, "«return a + b * c»\n"), (Return, "{ «return» }"), (Return, "if (a) «return (b)»\n else c;"), (Return, "«return [ a ]\n;»"),
    (Return, "«return function () { return 1 }»\n"), (Return, "while (a) { «return a , b ;» }"), (Return, "switch (a) { case 1: «return» }"), (Return, "n: «return ;» "), (Return, "function f() { return } «return»\n"),
    (Return, "«return a /* c */ ;» // c\n"), (Return, "«return a» /* c */\n b;"),
    (Word, "«W»;"), (Word, "x = «W»;"), (Word, "f(a, «W»);"), (Word, "«W» = 1;"), (Word, "«W»++;"), (Word, "--«W»;"), (Word, "«W» += a;"), (Word, "({ «W» });"), (Word, "({ a, «W», b: c });"), (Word, "«W»: ;"), (Word, "«W» : for (;;) break;"),
    (Word, "var «W»;"), (Word, "var a = 1, «W» = 2;"), (Word, "function «W»() { }"), (Word, "function* «W»() { }"), (Word, "(function «W»() { });"), (Word, "function f(«W») { }"), (Word, "function f(a, «W», b) { }"), (Word, "function f(a, ...«W») { }"),
    (Word, "try { } catch («W») { }"), (Word, "for (var «W» in o) ;"), (Word, "for (var «W» of o) ;"), (Word, "for («W» of o) ;"), (Word, "for («W» in o) ;"), (Word, "for («W».p in o) ;"), (Word, "for (const «W» of o) ;"), (Word, "for (var «W» = 1, b;;) ;"),
    (Word, "for («W»;;) ;"), (Word, "for (;«W»;) ;"), (Word, "for (;;«W») ;"), (Word, "const «W» = 1;"), (Word, "let a, «W» = 1;"), (Word, "({ m(«W») { } });"), (Word, "({ set p(«W») { } });"), (Word, "({ *m(a, ...«W») { } });"), (Word, "[«W»] = o;"), (Word, "[a, ...«W»] = o;"),
    (Word, "({ k: «W» } = o);"), (Word, "({ «W» } = o);"), (Word, "«W».p;"), (Word, "«W».W;"), (Word, "a[«W»];"), (Word, "new «W»;"), (Word, "typeof «W»;"), (Word, "a ? «W» : b;"), (Word, "a in «W»;"), (Word, "[a, , ...«W»];"), (Word, "f(...«W»);"),
    (Word, "if («W») ;"), (Word, "while («W») ;"), (Word, "do ; while («W»)"), (Word, "switch («W») { }"), (Word, "switch (a) { case «W»: ; }"), (Word, "throw «W»;"), (Word, "({ k: «W» });"), (Word, "a, «W»;"), (Word, "(«W»);"), (Word, "-«W»;"), (Word, "x = y = «W»;"), (Word, "var a = «W»;"),
    (Word, "({ W: 1, k: «W» });"), (Word, "({ W() { «W» } });"), (Word, "({ get W() { return «W» } });"), (Word, "x.W = «W»;"), (Word, "function f() { var «W» }"), (Word, "x = function () { «W» };"), (Word, "with_: «W»;"),
    (Bind, "var «W»;"), (Bind, "var a, «W» = 1;"), (Bind, "function «W»() { }"), (Bind, "(function «W»() { });"), (Bind, "x = function* «W»() { };"), (Bind, "function f(«W») { }"), (Bind, "function f(a, b, «W», c) { }"), (Bind, "function f(...«W») { }"), (Bind, "try { } catch («W») { } finally { }"),
    (Bind, "for (var «W» in o) ;"), (Bind, "for (let «W» of o) ;"), (Bind, "for (const «W» in o) ;"), (Bind, "for (let «W» = 1;;) ;"), (Bind, "let «W»;"), (Bind, "const a = 1, «W» = 2;"), (Bind, "({ set p(«W») { } });"), (Bind, "({ m(a, «W») { W } });"), (Bind, "(function (W2, «W») { });"), (Bind, "W; f(W); var «W»;"),
    (Bind, "W = W; function «W»() { }"),
    (Await, "«W»;"), (Await, "x = «W»;"), (Await, "var «W»;"), (Await, "function «W»() { }"), (Await, "function f(«W») { }"), (Await, "«W»: ;"), (Await, "({ «W» });"), (Await, "x.W = «W»;"), (Await, "try { } catch («W») { }"), (Await, "({ W: 1, k: «W» });"), (Await, "let «W»;"), (Await, "function f() { return «W» }"),
    (With, "«with» (o) ;"), (With, "«with» (o) { a }"), (With, "{ a; «with» (o) b }"), (With, "if (a) «with» (o) ;"), (With, "n: «with» (o) ;"), (With, "function f() { «with» (o) ; }"), (With, "switch (a) { default: «with» (o) ; }"), (With, "do «with» (o) ; while (a)"),
    (Default, "switch (s) { default: «default»: }"), (Default, "switch (s) { default: a; case 1: b; «default»: c }"), (Default, "switch (s) { case 1: default: break; «default»: case 2: }"), (Default, "switch (s) { case 0: switch (t) { default: } default: ; «default»: ; }"),
    (Default, "switch (s) { default: switch (t) { case 1: default: } «default»: ; }"), (Default, "switch (s) { default: { } «default» : default : }"),
    (Throw, "«throw»\na;"), (Throw, "«throw»;"), (Throw, "{ «throw» }"), (Throw, "«throw» // c\n a;"), (Throw, "«throw» /* \n */ a;"), (Throw, "if (a) «throw»; else b;"), (Throw, "try { «throw» } finally { }"), (Throw, "for (;;) «throw»\n{ }"),
    (Try, "try { } «a»;"), (Try, "try { a } «;»"), (Try, "{ try { } «}»"), (Try, "try { } «try» { } finally { }"), (Try, "try { } «(»a);"), (Try, "try { }\n«'s'»;"), (Try, "try { } /* c */ «[»];"), (Try, "try { } «else» ;"), (Try, "try { try { } finally { } } «10.5»;"), (Try, "try { } «+»a;"),
    (Try, "try { } «/re/g».x;"), (Try, "try { } «function» f() { }"), (Try, "if (a) try { } «{» }"), (Try, "try { } // finally\n «if» (a) ;"),
    (Target, "«1» = 2;"), (Target, "«f()» = 2;"), (Target, "«f()»++;"), (Target, "++«f()»;"), (Target, "-- «this» ;"), (Target, "(«a + b») = 1;"), (Target, "((«a , b»)) += 1;"), (Target, "«this» -= 1;"), (Target, "for («f()» in o) ;"), (Target, "for («a + b» of o) ;"), (Target, "«new a» = b;"), (Target, "«new a . b()» ++;"),
    (Target, "a = «f(b)» = c;"), (Target, "x = «'s'» *= b;"), (Target, "a ? b : «c()» = d;"), (Target, "- «1» ++;"), (Target, "typeof ++ «a()»;"), (Target, "++ «++ a»;"), (Target, "(«a = b») = c;"), (Target, "«a + b» = c;"), (Target, "«! a» = c;"), (Target, "«a && b» = c;"), (Target, "f(«1» = a);"), (Target, "x = [«null» = a];"),
    (Target, "(«function () { }») = a;"), (Target, "(«a ? b : c») <<= d;"), (Target, "«new.target» ++;"), (Target, "for («1» of o) ;"), (Target, "if («true» = a) ;"), (Target, "«a.b()» >>>= c;"), (Target, "( «f()» ) ++;"), (Target, "-- («f()»);"),
];

static STRICT: &[&str] = &["implements", "interface", "package", "private", "protected", "public", "static", "yield", "let"];
fn atom(w: &str) -> Option<Atom> {
    crate::tok::ATOMS.iter().find(|a| a.0 == w).map(|a| a.1)
}
/// A word as written: sometimes with an escape in it.
fn written(src: &mut Src, w: &str) -> String {
    if !src.chance(1, 5) {
        return w.to_string();
    }
    let n = w.chars().count() as u64;
    let at = src.below(n) as usize;
    w.chars().enumerate().map(|(i, c)| if i == at { if src.bool() { format!("\\u{:04x}", c as u32) } else { format!("\\u{{{:X}}}", c as u32) } } else { c.to_string() }).collect()
}
/// Some statements that are right in every goal.
fn some_items(src: &mut Src, most: usize) -> String {
    let n = src.count(1, most);
    let mut out = String::new();
    for _ in 0..n {
        let mut o = Opts::new(Goal::Module, src.range(1, 8));
        o.plain = true;
        let item = Gen::new(src, o).item();
        let mut b = Body { location: None, dirs: vec![], items: vec![item] };
        for t in print::print(src, &mut b, Style::plain()) {
            if t.text == "-->" {
                continue;
            }
            out.push_str(&t.text);
            out.push(' ');
        }
        if src.chance(1, 3) {
            out.push_str(*src.pick(&["\n", "\r\n", "\u{2028}", "/* c */", "/*\n*/", "// c\n", "\t"]));
        }
    }
    out
}
/// Before, after; a function, a loop, a switch; in strict code only outside it.
static AROUND: &[(&str, &str, char)] = &[
    ("{ ", " }", 'P'), ("if (c) { ", " }", 'P'), ("if (c) ; else { ", " }", 'P'), ("try { ", " } finally { }", 'P'), ("try { } catch (e) { ", " }", 'P'), ("try { } finally { ", " }", 'P'), ("zl1: { ", " }", 'P'), ("zl2: zl3: { ", " }", 'P'),
    ("while (c) { ", " }", 'L'), ("do { ", " } while (c);", 'L'), ("for (;;) { ", " }", 'L'), ("for (k in o) { ", " }", 'L'), ("for (let k of o) { ", " }", 'L'), ("zl4: for (var i = 0, j; i < 1; i++) { ", " }", 'L'),
    ("switch (s) { case 1: ", " }", 'S'), ("switch (s) { case 1: default: ", " case 2: }", 'S'),
    ("function f() { ", " }", 'F'), ("function g(a, ...b) { ", " }", 'F'), ("x = function () { ", " };", 'F'), ("x = function h(a) { ", " };", 'F'), ("({ get p() { ", " } });", 'F'), ("({ set p(v) { ", " } });", 'F'), ("({ m(a, b) { ", " } });", 'F'),
    ("f(a, function () { ", " }, b);", 'F'), ("[a, , { k: function () { ", " } }];", 'F'),
    ("function* g() { ", " }", 'G'), ("({ *g() { ", " } });", 'G'),
    ("with (o) { ", " }", 'W'),
];

/// A switch with two defaults anywhere among its clauses, the second marked.
fn two_defaults(src: &mut Src) -> String {
    let mut out = "switch (s) { ".to_string();
    let (before, between, after) = (src.count(1, 3), src.count(1, 4), src.count(1, 2));
    for i in 0..before + between + after + 2 {
        out.push_str(if i == before {
            "default: "
        } else if i == before + between + 1 {
            "«default»: "
        } else {
            *src.pick(&["case 1: ", "case a + b: ", "case f(): ", "case 1: "])
        });
        for _ in 0..src.below(3) {
            out.push_str(*src.pick(&["a; ", "break; ", "{ } ", "; ", "switch (t) { default: } ", "switch (t) { case 1: } ", "n: for (;;) break n; ", "if (a) ; else ; ", "function k() { } ", "x = function () { switch (t) { default: ; case 1: } }; "]));
        }
    }
    out.push('}');
    out
}
fn c32_faults(src: &mut Src, case: &mut Case) {
    let &(kind, template) = src.pick(FAULTS);
    let made = if kind == Default || src.chance(1, 30) { Some(two_defaults(src)) } else { None };
    let (kind, template) = match made {
        Some(ref t) if kind != Default || src.bool() => (Default, &t[..]),
        _ => (kind, template),
    };
    let lean = src.chance(1, 4);
    let goal = if kind == Await { Goal::Module } else { astgen::goal(src) };
    let needs_strict = [Word, Bind, With].contains(&kind);
    // ---- the word
    let w = match kind {
        Word => *src.pick(STRICT),
        Bind => *src.pick(&["eval", "arguments"]),
        Await => "await",
        _ => *src.pick(&["lab", "q", "of", "get", "async", "target", "$", "\u{e9}\u{4e2d}"]),
    };
    // where let may start a declaration it means something else
    let let_here = w == "let" && kind == Word;
    if let_here && !["= «W»;", "(a, «W»);", "{ «W» });", "k: «W» });", "typeof «W»;", "? «W» :", "in «W»;", "if («W»)", "throw «W»;", "function f(«W»", "(«W»);", "a[«W»]", "function «W»()"].iter().any(|t| template.contains(t)) {
        case.set_input("(let)".to_string());
        return;
    }
    if w == "yield" && template.contains('*') {
        // an operator there, and unsupported
        return case.set_input("(yield in a generator)".to_string());
    }
    let mut body = String::new();
    let mut here = None;
    let (mut from, mut to) = (0, 0);
    // any space may be more than a space where that changes nothing
    let wide = src.bool() && !template.contains("//") && !template.contains("/*") && !template.contains("'");
    let mut rest = template.chars();
    while let Some(c) = rest.next() {
        match c {
            ' ' if wide && src.chance(1, 3) => {
                let last = body.rsplit(|c: char| !c.is_ascii_alphabetic()).next().unwrap().to_string();
                let next = rest.as_str().trim_start_matches('«').trim_start();
                if ["break", "continue", "return", "throw", "yield"].contains(&&last[..]) || next.starts_with("++") || next.starts_with("--") || next.is_empty() {
                    body.push(c);
                } else {
                    body.push_str(*src.pick(&["\n", "\n", "\r\n", "\u{2029}", "  ", "\t", "/* c */", "/*\n*/", " /* c\r\n */ ", "\n/**/", "\n\n"]));
                }
            }
            'W' => {
                let blamed = here.is_some() && to == 0;
                let t = if blamed && !let_here { written(src, w) } else { w.to_string() };
                body.push_str(&t);
            }
            '«' => {
                here = Some(());
                from = body.chars().count();
            }
            '»' => to = body.chars().count(),
            c => body.push(c),
        }
    }
    // ---- what is around it
    let mut stack: Vec<(&str, &str, char)> = vec![];
    for _ in 0..if lean { 0 } else { src.below(4) } {
        stack.push(*src.pick(AROUND));
    }
    stack.retain(|a| match a.2 {
        'F' | 'G' if kind == Return => false,
        'G' if w == "yield" => false,
        'W' if goal != Goal::Script || needs_strict || kind == Await => false,
        _ => true,
    });
    // no label inside itself
    for i in (1..stack.len()).rev() {
        if stack[i].0.starts_with('z') && stack[..i].contains(&stack[i]) {
            stack.remove(i);
        }
    }
    let after_last_fun = stack.iter().rposition(|a| a.2 == 'F' || a.2 == 'G').map_or(0, |i| i + 1);
    let bad = stack[after_last_fun..].iter().any(|a| a.2 == 'L' && (kind == Break || kind == Continue) || a.2 == 'S' && kind == Break);
    if bad {
        let f: Vec<_> = AROUND.iter().filter(|a| a.2 == 'F').cloned().collect();
        stack.push(*src.pick(&f));
    }
    // ---- strict code
    let mut directive: Option<usize> = None;
    if needs_strict && goal == Goal::Script {
        let funs: Vec<usize> = (0..stack.len()).filter(|&i| stack[i].2 == 'F' || stack[i].2 == 'G').collect();
        directive = Some(if funs.is_empty() || src.bool() { 0 } else { *src.pick(&funs) + 1 });
    }
    let quote = *src.pick(&["'use strict';", "\"use strict\";\n", "'a'; 'use strict';", "'use strict'; 'b';"]);
    let mut text = String::new();
    let mut rest: Vec<&str> = vec![];
    if directive == Some(0) {
        text.push_str(quote);
    }
    let fresh = |src: &mut Src| if lean { String::new() } else { some_items(src, 3) };
    text.push_str(&fresh(src));
    for (i, a) in stack.iter().enumerate() {
        text.push_str(a.0);
        if directive == Some(i + 1) {
            text.push_str(quote);
        }
        text.push_str(&fresh(src));
        rest.push(a.1);
    }
    text.push_str(*src.pick(&["", "", " ", "\n", "\r\n\u{2029}", " /* c */ ", "\n\t"]));
    let off = text.chars().count();
    let (from, to) = (from + off, to + off);
    text.push_str(&body);
    text.push_str(" ");
    if kind != Try && kind != Return {
        text.push_str(&fresh(src));
    }
    while let Some(r) = rest.pop() {
        text.push_str(r);
        text.push_str(&fresh(src));
    }
    case.set_input(format!("{:?} {:?}, at {}..{}", goal, text, from, to));
    case.class(format!("{:?}", kind));
    case.nontrivial = true;
    let location = span_at(&text, from, to);
    let token = |value: TokenData| {
        // a comment with a newline in it counts too
        let cs: Vec<char> = text.chars().collect();
        let newline = newline_here(&cs, from);
        Token { location, newline, value }
    };
    let word = || Id { location: Some(location), name: Name::from(label_of(w, &text, from, to)) };
    let want = match kind {
        Break => Error::IllegalBreak(token(TokenData::Reserved(Reserved::Break))),
        Continue => Error::IllegalContinue(token(TokenData::Reserved(Reserved::Continue))),
        NoLabel | LabelTwice => Error::InvalidLabel(word()),
        NoLoop => Error::InvalidLabelType(word()),
        Return => Error::TopLevelReturn(location),
        Word | Await => Error::ContextualKeyword(location, atom(w).unwrap()),
        Bind => Error::IllegalStrictBinding(location, atom(w).unwrap()),
        With => Error::StrictWith(token(TokenData::Reserved(Reserved::With))),
        Default => Error::DuplicateDefault(token(TokenData::Reserved(Reserved::Default))),
        Throw => Error::ThrowArgument(token(TokenData::Reserved(Reserved::Throw))),
        Try => {
            let cs: Vec<char> = text.chars().skip(from).take(to - from).collect();
            let l = lexdrv::lex(&cs, |_| false);
            Error::OrphanTry(token(l.toks[0].value.clone()))
        }
        Target => Error::InvalidLHS(Some(location), cover::Error::InvalidAssignTarget(Some(location))),
    };
    let got = parse(goal, &text);
    match got {
        Ok(_) => return case.fail(format!("accepted, expected {:?}", want)),
        Err(ref e) if *e != want => return case.fail(format!("the error is {:?}, expected {:?}", e, want)),
        _ => {}
    }
    same_later(goal, &text, &got, case);
}
/// The label that stands at a place: W, or W twice.
fn label_of(w: &str, text: &str, from: usize, to: usize) -> String {
    let t: Vec<char> = text.chars().skip(from).take(to - from).collect();
    let l = lexdrv::lex(&t, |_| true);
    match l.toks.get(0).map(|t| t.value.clone()) {
        Some(TokenData::Identifier(n)) => {
            let s = n.into_string();
            if s == format!("{}{}", w, w) {
                s
            } else {
                w.to_string()
            }
        }
        _ => w.to_string(),
    }
}
/// Whether white space or a comment that holds a line terminator stands before an offset. Comments
/// before a blamed token in these texts hold no quotes or slashes.
fn newline_here(cs: &[char], at: usize) -> bool {
    let mut i = at;
    loop {
        while i > 0 && (crate::reflex::is_nl(cs[i - 1]) || crate::reflex::is_space(cs[i - 1])) {
            i -= 1;
            if crate::reflex::is_nl(cs[i]) {
                return true;
            }
        }
        if i >= 4 && cs[i - 1] == '/' && cs[i - 2] == '*' {
            let mut k = i - 2;
            while k >= 2 && !(cs[k - 2] == '/' && cs[k - 1] == '*') {
                k -= 1;
                if crate::reflex::is_nl(cs[k]) {
                    return true;
                }
            }
            i = k - 2;
            continue;
        }
        return false;
    }
}

// ------------------------------------------------------------------ the first fault of a program

fn c32_jumps(src: &mut Src, case: &mut Case) {
    let (goal, tree) = c14_tree(src);
    let style = Style::any(src);
    let l = Lay::any(src);
    let mut m = lay(src, goal, tree, style, &l);
    case.set_input(m.input());
    let got = parse(goal, &m.laid.text);
    // the first breach with the place it is at; a return counts where it ends
    let mut found: Vec<(u32, Error)> = vec![];
    let text = m.laid.text.clone();
    let cs: Vec<char> = text.chars().collect();
    let tok_at = |s: Span, word: &str, r: Reserved| Token {
        location: span_at(&text, s.start.offset as usize, s.start.offset as usize + word.len()),
        newline: false,
        value: TokenData::Reserved(r),
    };
    scope::run(&mut m.tree, false, |at, cx| {
        if let At::Stmt(s) = at {
            let loc = match *s.tracking_ref() {
                Some(l) => l,
                None => return,
            };
            match *s {
                Stmt::Break(_, None, _) if !cx.iteration && !cx.switch => found.push((loc.start.offset, Error::IllegalBreak(tok_at(loc, "break", Reserved::Break)))),
                Stmt::Cont(_, None, _) if !cx.iteration => found.push((loc.start.offset, Error::IllegalContinue(tok_at(loc, "continue", Reserved::Continue)))),
                Stmt::Break(_, Some(ref i), _) if !cx.labels.iter().any(|l| i.name.as_ref() == l.0) => found.push((i.location.unwrap().start.offset, Error::InvalidLabel(i.clone()))),
                Stmt::Cont(_, Some(ref i), _) => match cx.labels.iter().find(|l| i.name.as_ref() == l.0) {
                    None => found.push((i.location.unwrap().start.offset, Error::InvalidLabel(i.clone()))),
                    Some(l) if !l.1 => found.push((i.location.unwrap().start.offset, Error::InvalidLabelType(i.clone()))),
                    _ => {}
                },
                Stmt::Label(_, ref i, _) if cx.labels.iter().any(|l| i.name.as_ref() == l.0) => found.push((i.location.unwrap().start.offset, Error::InvalidLabel(i.clone()))),
                Stmt::Return(..) if !cx.function => found.push((loc.end.offset, Error::TopLevelReturn(loc))),
                _ => {}
            }
        }
    });
    found.sort_by_key(|f| f.0);
    let mut want = match found.into_iter().next() {
        Some((_, e)) => e,
        None => return,
    };
    case.nontrivial = true;
    match want {
        Error::IllegalBreak(ref mut t) | Error::IllegalContinue(ref mut t) => t.newline = newline_any(&cs, &m.toks, &m.laid, t.location.start.offset),
        _ => {}
    }
    // whether parentheses at the end of a statement belong to it is no matter here
    let plain = |e: &Error| match *e {
        Error::TopLevelReturn(l) => {
            let mut s = Stmt::Empty(Some(l));
            m.laid.canonical(&mut s);
            Error::TopLevelReturn(s.tracking_ref().unwrap())
        }
        ref e => e.clone(),
    };
    match got {
        Ok(_) => return case.fail(format!("accepted, expected {:?}", want)),
        Err(ref e) if plain(e) == plain(&want) => {}
        Err(ref e) => return case.fail(format!("the error is {:?}, expected {:?}", e, want)),
    }
    same_later(goal, &m.laid.text, &got, case);
}
/// The newline flag of the token at an offset of a laid out program.
fn newline_any(cs: &[char], toks: &[print::Tok], laid: &print::Laid, offset: u32) -> bool {
    let mut r = crate::reflex::Ref::new(cs);
    let real: Vec<usize> = (0..toks.len()).filter(|&i| !laid.omitted[i]).collect();
    let mut k = 0;
    loop {
        // whichever mode, only the slash is read differently; the modes are the printer's
        let op = real.get(k).map_or(true, |&i| !toks[i].regexp);
        match r.next(op) {
            Ok(t) => {
                if t.start as u32 == offset {
                    return t.newline;
                }
                if t.start as u32 > offset || t.end >= cs.len() && t.start == t.end {
                    return false;
                }
                k += 1;
            }
            Err(_) => return false,
        }
    }
}

fn c32_strict(src: &mut Src, case: &mut Case) {
    let mut tree = c15_tree(src);
    if scope::jump_breach(&mut tree).is_some() {
        return case.set_input("(jump rules)".to_string());
    }
    let style = Style::any(src);
    let mut l = Lay::any(src);
    l.html = false;
    let mut m = lay(src, Goal::Script, tree, style, &l);
    case.set_input(format!("{:?}", m.laid.text));
    let text = m.laid.text.clone();
    let cs: Vec<char> = text.chars().collect();
    for &goal in &[Goal::Script, Goal::Strict, Goal::Module] {
        let mut found: Vec<(u32, Error)> = vec![];
        let mut open = false;
        scope::run(&mut m.tree, goal != Goal::Script, |at, cx| match at {
            At::Id(i, r) => {
                let n = i.name.as_ref().to_string();
                let l = i.location.unwrap();
                let bind = r == Role::Bind || r == Role::Lexical;
                let restricted = bind && (n == "eval" || n == "arguments");
                let word = scope::STRICT_WORDS.contains(&&n[..]);
                if cx.strict && restricted {
                    found.push((l.start.offset, Error::IllegalStrictBinding(l, atom(&n).unwrap())));
                } else if cx.strict && word || goal == Goal::Module && n == "await" {
                    found.push((l.start.offset, Error::ContextualKeyword(l, atom(&n).unwrap())));
                } else if (restricted || word) && cx.reach_back {
                    open = true;
                }
            }
            At::Stmt(s) => {
                if let (true, &mut Stmt::With(Some(l), ..)) = (cx.strict, s) {
                    let location = span_at(&text, l.start.offset as usize, l.start.offset as usize + 4);
                    found.push((l.start.offset, Error::StrictWith(Token { location, newline: false, value: TokenData::Reserved(Reserved::With) })));
                }
            }
            _ => {}
        });
        if open {
            continue;
        }
        found.sort_by_key(|f| f.0);
        let single = found.len() == 1;
        let mut want = match found.into_iter().next() {
            Some((_, e)) => e,
            None => continue,
        };
        if let Error::StrictWith(ref mut t) = want {
            t.newline = newline_any(&cs, &m.toks, &m.laid, t.location.start.offset);
        }
        case.nontrivial = true;
        case.class(format!("{:?}", goal));
        let got = parse(goal, &text);
        match got {
            Ok(_) => return case.fail(format!("{:?}: accepted, expected {:?}", goal, want)),
            Err(ref e) if *e == want => {}
            Err(ref e) => return case.fail(format!("{:?}: the error is {:?}, expected {:?}", goal, e, want)),
        }
        if single {
            same_later(goal, &text, &got, case);
        }
    }
}

// ------------------------------------------------------------------ targets

fn c32_targets(src: &mut Src, case: &mut Case) {
    let mut e = near_target(src, 3);
    let place = src.below(8);
    let mut p = Printer::new(src, Style { parens: 0, escapes: false, commas: false, param_commas: false });
    let literal = match e {
        easter::expr::Expr::Arr(..) | easter::expr::Expr::Obj(..) => true,
        _ => false,
    };
    let wrap = !literal && (level(&e) < 15 || p.src.chance(1, 4));
    p.expr(&mut e, 0, false);
    let mut text: String = p.toks.iter().map(|t| format!("{} ", t.text)).collect();
    let src = p.src;
    if wrap || place >= 6 && text.starts_with("let ") {
        text = format!("( {} )", text);
    }
    let aop = src.pick(astgen::ASSOPS).clone();
    let compound = place >= 1 && place <= 5;
    if if compound { target_of(&e).is_some() } else { patt_of(&e).is_some() } {
        return case.set_input("(a target)".to_string());
    }
    let head = if src.bool() { String::new() } else { format!("{}\n", some_items(src, 2)) };
    let (before, after) = match place {
        0 => ("( ", "= v ) ;".to_string()),
        1 => ("( ", format!("{} v ) ;", ast::assop_text(&aop))),
        2 => ("( ++ ", ") ;".to_string()),
        3 => ("( -- ", ") ;".to_string()),
        4 => ("( ", "++ ) ;".to_string()),
        5 => ("( ", "-- ) ;".to_string()),
        6 => ("for ( ", "in v ) ;".to_string()),
        _ => ("for ( ", "of v ) ;".to_string()),
    };
    let whole = format!("{}{}{}{}", head, before, text, after);
    // the expression alone, at the same place
    let alone = format!("{}{:>width$} {} ) ;", head, "(", text, width = before.len() - 1);
    case.set_input(format!("{:?}", whole));
    case.class(["=", "op=", "++x", "--x", "x++", "x--", "for-in", "for-of"][place as usize]);
    case.nontrivial = true;
    let mut items = match parse(Goal::Script, &alone) {
        Ok(t) => t.items,
        Err(e) => return case.fail(format!("alone, it is rejected: {:?}", e)),
    };
    let tree = match items.pop() {
        Some(StmtListItem::Stmt(Stmt::Expr(_, e, _))) => e,
        _ => return case.fail("alone, it is no expression"),
    };
    let own = *tree.tracking_ref();
    let mut faults = vec![];
    if compound {
        faults.push((Part::Target, own));
    } else {
        offending(&tree, &mut faults);
    }
    let got = parse(Goal::Script, &whole);
    match got {
        Ok(_) => return case.fail("accepted"),
        Err(Error::InvalidLHS(l, ref inner)) => {
            if l != own {
                return case.fail(format!("the left-hand side is said to be at {}, but is at {}", ast::span_text(&l), ast::span_text(&own)));
            }
            if let Some(d) = at_fault(inner, &faults) {
                return case.fail(d);
            }
        }
        Err(ref e) => return case.fail(format!("no target, but the error is {:?}", e)),
    }
    same_later(Goal::Script, &whole, &got, case);
}

// ------------------------------------------------------------------ the text of errors

fn c32_texts(src: &mut Src, case: &mut Case) {
    let text = any_text(src, case);
    let goal = astgen::goal(src);
    case.set_input(format!("{:?} {:?}", goal, text));
    let e = match parse(goal, &text) {
        Ok(_) => return,
        Err(e) => e,
    };
    case.nontrivial = true;
    let (d, s, g) = (e.to_string(), StdError::description(&e).to_string(), format!("{:?}", e));
    if d.trim().is_empty() || s.trim().is_empty() || g.is_empty() || d.contains('\n') {
        return case.fail(format!("an error that reads {:?}, {:?}, {:?}", d, s, g));
    }
    let wraps = match e {
        Error::LexError(ref x) => Some((x.to_string(), StdError::description(x).to_string())),
        Error::InvalidLHS(_, ref x) => Some((x.to_string(), StdError::description(x).to_string())),
        _ => None,
    };
    match (wraps, e.cause()) {
        (None, None) => {}
        (Some((full, short)), Some(c)) => {
            if c.to_string() != full {
                return case.fail(format!("the cause reads {:?}, but the error inside {:?}", c.to_string(), full));
            }
            if !d.contains(&short) {
                return case.fail(format!("the error reads {:?}, but the one inside {:?}", d, short));
            }
        }
        (w, c) => return case.fail(format!("wraps {:?}, but the cause is {:?}", w, c.map(|c| c.to_string()))),
    }
}

// ------------------------------------------------------------------ C34: what is not supported yet

#[derive(Clone, Copy, PartialEq, Debug)]
enum Feature {
    Destructuring,
    Yield,
    Import,
    Export,
}
/// The first token of the construct stands between « and ».
static UNBUILT: &[(Feature, &str)] = &[
    (Feature::Destructuring, "var «[» a ] = b;"), (Feature::Destructuring, "var «{» a } = b;"), (Feature::Destructuring, "var x, «[»] = b;"), (Feature::Destructuring, "var x = 1, y, «{» } = b;"), (Feature::Destructuring, "var «[» , , ...r ] = b"),
    (Feature::Destructuring, "let «[» a ] = b;"), (Feature::Destructuring, "let «{» a: { b } } = b;"), (Feature::Destructuring, "let x, «[» a ] = b;"), (Feature::Destructuring, "const «[» a ] = b;"), (Feature::Destructuring, "const x = 1, «{» a, b = 1 } = b;"),
    (Feature::Destructuring, "function f(«[» a ]) { }"), (Feature::Destructuring, "function f(«{» a }) { }"), (Feature::Destructuring, "function f(a, «[» b ], c) { }"), (Feature::Destructuring, "function f(a, ...«[» b ]) { }"), (Feature::Destructuring, "function f(...«{» b }) { }"),
    (Feature::Destructuring, "(function («{» a }) { });"), (Feature::Destructuring, "x = function* (a, «[» b ]) { };"), (Feature::Destructuring, "({ m(«[» a ]) { } });"), (Feature::Destructuring, "({ *m(a, «{» b }) { } });"), (Feature::Destructuring, "({ set p(«[» a ]) { } });"), (Feature::Destructuring, "({ set p(«{» a }) { } });"),
    (Feature::Destructuring, "try { } catch («[» a ]) { }"), (Feature::Destructuring, "try { } catch («{» a }) { } finally { }"), (Feature::Destructuring, "for (var «[» a ] in b) ;"), (Feature::Destructuring, "for (var «{» a } of b) ;"), (Feature::Destructuring, "for (let «[» a ] of b) ;"), (Feature::Destructuring, "for (const «{» a } in b) ;"),
    (Feature::Destructuring, "for (var «{» a } = b;;) ;"), (Feature::Destructuring, "for (let «[» a ] = b;;) ;"), (Feature::Destructuring, "for (var x, «[» a ] = b;;) ;"), (Feature::Destructuring, "for (let x = 1, «{» a } = b; c; d) ;"), (Feature::Destructuring, "for (const x = 1, «[» a ] = b;;) ;"),
    (Feature::Destructuring, "var\n«[» a ] = b"), (Feature::Destructuring, "var /* c */ «{» a } = b"), (Feature::Destructuring, "function* g(«[» a ]) { }"), (Feature::Destructuring, "var «{»"), (Feature::Destructuring, "function f(«[»"),
    (Feature::Yield, "function* g() { «yield»; }"), (Feature::Yield, "function* g() { «yield» x }"), (Feature::Yield, "function* g() { a = «yield» b; }"), (Feature::Yield, "function* g() { f(a, «yield» b) }"), (Feature::Yield, "x = function* () { var a = «yield» };"), (Feature::Yield, "({ *m() { return «yield» a } });"),
    (Feature::Yield, "function* g() { if («yield») ; }"), (Feature::Yield, "function* g() { while (a) { «yield» a; } }"), (Feature::Yield, "function* g() { [ a, «yield» ] }"), (Feature::Yield, "function* g() { ({ k: «yield» a }) }"), (Feature::Yield, "function* g() { a ? «yield» : b }"), (Feature::Yield, "function* g() { for (a of «yield» b) ; }"),
    (Feature::Yield, "function* g() { function f() { yield } «yield» }"), (Feature::Yield, "function* g() { x = function () { yield = 1 }, «yield» }"), (Feature::Yield, "function* g() { ({ get yield() { return yield }, k: «yield» }) }"), (Feature::Yield, "function* g() { switch («yield» a) { } }"),
    (Feature::Yield, "function* g() { a.yield = «yield» }"), (Feature::Yield, "function* g() { try { } finally { «yield» * a } }"), (Feature::Yield, "function* g() { throw «yield» a }"), (Feature::Yield, "function* g(a, ...b) { a[«yield» b] }"), (Feature::Yield, "function* g() { ( «yield» ) }"),
    (Feature::Yield, "function f() { x = function* () { «yield» } }"), (Feature::Yield, "function* g() { ({ yield: 1, *yield() { «yield» } }) }"), (Feature::Yield, "function* g() { a = b, «yield» c }"), (Feature::Yield, "function* g() { do ; while («yield» a) }"), (Feature::Yield, "function* g() { new a(«yield») }"),
    (Feature::Import, "«import» 'x';"), (Feature::Import, "«import» a from 'x';"), (Feature::Import, "«import» * as a from 'x'"), (Feature::Import, "«import» { a as b } from 'x';"), (Feature::Import, "«import» { } from 'x'"), (Feature::Import, "«import»"), (Feature::Import, "«import» a, { b } from 'x'\n"), (Feature::Import, "«import»('x');"), (Feature::Import, "«import».meta"),
    (Feature::Export, "«export» var a;"), (Feature::Export, "«export» default 1;"), (Feature::Export, "«export» { a };"), (Feature::Export, "«export» * from 'x'"), (Feature::Export, "«export» function f() { }"), (Feature::Export, "«export» default function () { }"), (Feature::Export, "«export»"), (Feature::Export, "«export» let a = 1"), (Feature::Export, "«export» { } from 'x'"),
];
/// What may only be in a module's way, and what is wrong with it.
static BEFORE_MODULE: &[&str] = &[
    "with (o) a;", "await;", "var await = 1;", "x = await;", "function await() { }", "function f() { with (o) ; }", "var eval;", "eval = function (arguments) { };", "x = static;", "try { } catch (arguments) { }", "({ m(package) { } });", "{ var interface; }",
    "function f(a) { await: ; }", "await: ;", "for (await of b) ;",
];

fn c34_named(src: &mut Src, case: &mut Case) {
    let &(feature, template) = src.pick(UNBUILT);
    let lean = src.chance(1, 4);
    let goal = if feature == Feature::Yield { Goal::Script } else { astgen::goal(src) };
    let item = feature == Feature::Import || feature == Feature::Export;
    let from = template.chars().position(|c| c == '«').unwrap();
    let to = template.chars().position(|c| c == '»').unwrap() - 1;
    let body: String = template.chars().filter(|&c| c != '«' && c != '»').collect();
    let mut stack: Vec<(&str, &str, char)> = vec![];
    for _ in 0..if lean { 0 } else { src.below(4) } {
        stack.push(*src.pick(AROUND));
    }
    if item && src.chance(2, 3) {
        stack.clear();
    }
    stack.retain(|a| a.2 != 'W' || goal == Goal::Script);
    for i in (1..stack.len()).rev() {
        if stack[i].0.starts_with('z') && stack[..i].contains(&stack[i]) {
            stack.remove(i);
        }
    }
    let mut text = String::new();
    if src.chance(1, 6) {
        text.push_str(*src.pick(&["'a';", "'use asm';\n", "\"a\"; 'b';"]));
    }
    let fresh = |src: &mut Src| if lean { String::new() } else { some_items(src, 3) };
    text.push_str(&fresh(src));
    for a in &stack {
        text.push_str(a.0);
        text.push_str(&fresh(src));
    }
    text.push_str(*src.pick(&["", "", " ", "\n", "\r\n\u{2029}", " /* c */ ", "\n\t"]));
    let off = text.chars().count();
    let (from, to) = (from + off, to + off);
    text.push_str(&body);
    text.push_str(" ");
    let nested = !stack.is_empty();
    // the rest hardly matters
    if src.chance(4, 5) {
        text.push_str(&fresh(src));
        while let Some(a) = stack.pop() {
            text.push_str(a.1);
            text.push_str(&fresh(src));
        }
    }
    case.set_input(format!("{:?} {:?}, at {}..{}", goal, text, from, to));
    case.class(format!("{:?}", feature));
    case.nontrivial = true;
    let unexpected = || {
        let cs: Vec<char> = text.chars().collect();
        let value = TokenData::Reserved(if feature == Feature::Import { Reserved::Import } else { Reserved::Export });
        Error::UnexpectedToken(Token { location: span_at(&text, from, to), newline: newline_here(&cs, from), value })
    };
    let want = match feature {
        Feature::Destructuring => Error::UnsupportedFeature("destructuring"),
        Feature::Yield => Error::UnsupportedFeature("yield"),
        Feature::Import if goal == Goal::Module && !nested => Error::UnsupportedFeature("import"),
        Feature::Export if goal == Goal::Module && !nested => Error::UnsupportedFeature("export"),
        _ => unexpected(),
    };
    match parse(goal, &text) {
        Ok(_) => return case.fail(format!("accepted, expected {:?}", want)),
        Err(ref e) if *e != want => return case.fail(format!("the error is {:?}, expected {:?}", e, want)),
        _ => {}
    }
    // no goal given: an import or export makes it a module
    let want = match feature {
        Feature::Import if !nested => Error::UnsupportedFeature("import"),
        Feature::Export if !nested => Error::UnsupportedFeature("export"),
        _ => want,
    };
    match esprit::program(&text) {
        Ok(_) => case.fail(format!("without a goal it is accepted, expected {:?}", want)),
        Err(ref e) if *e != want => case.fail(format!("without a goal the error is {:?}, expected {:?}", e, want)),
        _ => {}
    }
}
/// An import or export after code that no module may hold.
fn c34_module(src: &mut Src, case: &mut Case) {
    let head = if src.bool() { String::new() } else { some_items(src, 2) };
    let bad = *src.pick(BEFORE_MODULE);
    let mid = if src.bool() { String::from("\n") } else { format!("\n{}\n", some_items(src, 2)) };
    let end = *src.pick(&["import 'x';", "import a from 'x'", "export var a;", "export", "import", "export { a };"]);
    let text = format!("{}\n{}{}{}", head, bad, mid, end);
    case.set_input(format!("{:?}", text));
    case.class(bad);
    case.nontrivial = true;
    // a script with the part before
    let before = format!("{}\n{}{}", head, bad, mid);
    if let Err(e) = parse(Goal::Script, &before) {
        return case.fail(format!("what stands before is no script: {:?}", e));
    }
    let want = match parse(Goal::Module, &before) {
        Ok(_) => return case.fail("what stands before passes as a module"),
        Err(e) => e,
    };
    for (how, got) in vec![("as a module", parse(Goal::Module, &text).err()), ("without a goal", esprit::program(&text).err())] {
        if got.as_ref() != Some(&want) {
            return case.fail(format!("{}, the error is {:?}, but without its end it is {:?}", how, got, want));
        }
    }
}

/// What other editions have: the token where the text leaves the supported language.
static LATER: &[&str] = &[
    "«class» A { }", "x = «class» { };", "«class»", "a «=>» b;", "(a) «=>» b;", "x = a «=>» b;", "f(a «=>» { });", "async () «=>» a;", "(a, b) «=>» { }",
    "function f(a «=» 1) { }", "(function (a, b «=» 1) { });", "({ m(a «=» 1) { } });", "({ «[»a]: 1 });", "({ get «[»a]() { } });", "({ a, «...»b });", "({ a, «[»a]() { } });", "«super».x;", "«super»();", "x = «super».a;",
    "a *«*» b;", "a ?«.»b;", "a ?«?» b;", "a ||«=» b;", "a &&«=» b;", "for «await» (a of b) ;", "({ async «f»() { } });", "({ get async «f»() { } });", "async «function» f() { }", "new.«foo»;", "new.«a» ();",
    "x = «import»('y');", "a(«import».meta);", "try { } catch «{» }", "if (a) «function» f() { }", "l: «function» f() { }", "while (a) «function» f() { }", "if (a) ; else «function» f() { }", "with_: «class» A { }", "if (a) «const» b = 1;", "while (a) «class» A { }",
    "do «function» f() { } while (a)", "({ a«;» b });", "({ *«:» 1 });", "({ get «*»a() { } });", "({ * get «a»() { } });", "function f(a, b«;» c) { }", "function f(...a«,» b) { }", "function f(...a«,») { }", "({ set p(«...»a) { } });", "({ set p(«)» { } });", "({ get p(«a») { } });", "({ set p(a«,» b) { } });",
    "«enum» A { }", "x = «enum»;", "var a «of» b;", "let a, «...»b;", "[a «=>» b];", "f(...«)»;", "x = [...«]»;",
];
fn c34_later(src: &mut Src, case: &mut Case) {
    let template = *src.pick(LATER);
    let goal = astgen::goal(src);
    let from = template.chars().position(|c| c == '«').unwrap();
    let to = template.chars().position(|c| c == '»').unwrap() - 1;
    let body: String = template.chars().filter(|&c| c != '«' && c != '»').collect();
    let mut text = String::new();
    let mut ends: Vec<&str> = vec![];
    if src.chance(1, 2) {
        text.push_str(&some_items(src, 3));
    }
    for _ in 0..src.below(3) {
        let a = src.pick(AROUND);
        if a.2 == 'W' || a.0.starts_with('z') {
            continue;
        }
        text.push_str(a.0);
        ends.push(a.1);
    }
    text.push_str(*src.pick(&["", "", " ", "\n", "\r\n\u{2029}", " /* c */ "]));
    let off = text.chars().count();
    let (from, to) = (from + off, to + off);
    text.push_str(&body);
    while let Some(e) = ends.pop() {
        text.push_str(e);
    }
    case.set_input(format!("{:?} {:?}, at {}..{}", goal, text, from, to));
    case.class(template);
    case.nontrivial = true;
    let location = span_at(&text, from, to);
    for (how, got) in vec![("", parse(goal, &text).err()), ("without a goal ", esprit::program(&text).err())] {
        match got {
            None => return case.fail(format!("{}accepted", how)),
            Some(Error::UnexpectedToken(ref t)) | Some(Error::FailedASI(ref t)) if t.location == location => {}
            Some(e) => return case.fail(format!("{}the error is {:?}, expected an unexpected token at {:?}", how, e, location)),
        }
    }
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C34",
        rule: "a program that meets exactly one construct the parser does not support, at a place known by construction; and code no module may hold before an import or export",
        subs: vec![
            sub("unsupported", c34_named, 300000, 4000000),
            sub("module by its end", c34_module, 100000, 1000000),
            sub("later editions", c34_later, 200000, 2000000),
        ],
        assumptions: vec!["yield in strict code is not covered: it is refused as a reserved word"],
    },
    Check {
        id: "C32",
        rule: "a program with exactly one fault, or whose first fault is known; for texts of errors, any rejected text",
        subs: vec![
            sub("one fault", c32_faults, 300000, 4000000),
            sub("first misplaced jump", c32_jumps, 100000, 1000000),
            sub("first breach of strict mode", c32_strict, 75000, 800000),
            sub("invalid targets", c32_targets, 150000, 2000000),
            sub("texts of errors", c32_texts, 150000, 1500000),
        ],
        assumptions: vec![
            "a return outside functions is found where it ends, every other fault where it stands; the first one found is reported",
            "what a directive means for the name and parameters of its own function is left open",
        ],
    }]
}
