//! Properties C36 and C37: relations between the parses of related texts.
use crate::ast::{self, Detail};
use crate::astgen::{self, Gen, Goal, Opts};
use crate::engine::*;
use crate::parsedrv::*;
use crate::print::{self, Lay, Style};
use crate::reflex;
use easter::stmt::{Block, Body, Script, Stmt, StmtListItem};
use esprit::error::Error;
use joker::track::{Span, TrackingRef};

/// As many characters, and the same lines, of nothing.
fn blank(s: &str) -> String {
    s.chars().map(|c| if reflex::is_nl(c) { c } else { ' ' }).collect()
}

// ------------------------------------------------------------------ one after the other

/// Texts that mean something else, or nothing, inside a function, a loop, a label, strict code.
static PROBES: &[&str] = &[
    "break;", "continue;", "return;", "return a", "break zl;", "continue zl;", "break l;", "continue l\n", "yield;", "yield = 1;", "x = yield\n/a/g", "yield * a", "with (a) b;", "var eval;", "arguments = 1;", "let\na", "let = 1;", "public;", "var static;", "({ yield })",
    "for (var x = a in b) ;", "for (var x = (a in b); ;) ;", "for (x = a in b; ;) ;", "for (a in b) ;", "a in b;", "a ? b in c : d in e;", "[a in b]", "new.target;", "case 1: a", "default: a", "else a", "} a", ") a", "] a", "catch (e) { }", "finally { }", "while (a)",
    "zl: a;", "l: l2: a;", "f: for (;;) continue f;", "l: { break l; }", "{ a: 1 } = b;", "({ a: 1 }) = b;", "({ a } = b);", "[a] = b;", "([a]) = b;", "[(a)] = b;", "[{ a }] = b;", "(a) = b;", "(a, b) = c;", "({ a: (b) } = c);", "for ([a] of b) ;", "for ({ a } in b) ;", "f() = 1;", "(f()) = 1", "a++ ++", "++a++", "'use strict'; with (a) b;", "'use strict'; yield;", "'use strict'", "'a'\n'b'", "'a' + b",
    "function f() { 'use strict'; with (a) b; }", "function eval() { 'use strict' }", "function* g() { a }", "function* g() { yield }", "/a/g", "/ a", "-->", "<!-- a", "--> a", "++\na", "a\n++b", "a\n(b)", "await;", "await: a;", "enum", "class C { }", "let { a } = b;", "let [a] = b;", "a => b", "x = function () { return }", "do a; while (b) c", "if (a) b; else c", "throw\na", "throw a", "try { }", "switch (a) { default: default: }",
    "\u{5c}u0061\u{5c}u0062", "v\u{5c}u0061r a", "0777", "08", "'\u{5c}01'", "var x\nvar y", "var x y", "a b", "{ } /a/g", "x = { } /a/g", "+{ } / a", "of = a;", "get: a;", "async\nfunction f() { }",
];

pub fn a_text(src: &mut Src, case: &mut Case) -> String {
    match src.below(10) {
        0 | 1 => {
            case.class("probe");
            let mut t = src.pick(PROBES).to_string();
            while src.chance(1, 3) {
                t.push_str(*src.pick(&[" ", "\n", "; ", "\n;"]));
                t.push_str(*src.pick(PROBES));
            }
            t
        }
        2 => {
            case.class("kin");
            crate::acornprops::kin_text(src).0
        }
        3 => {
            case.class("phrases");
            crate::acornprops::phrase_text(src)
        }
        4 | 5 | 6 => {
            case.class("program");
            let o = Opts { goal: astgen::goal(src), portable: false, size: src.range(1, 30), plain: src.bool(), wild: false };
            let (s, l) = (Style::any(src), Lay::any(src));
            make(src, o, s, &l).laid.text
        }
        _ => any_text(src, case),
    }
}

fn tells(e: &Error) -> String {
    format!("{:?}", e)
}
/// An error over the text that was still to come.
fn about_the_end(e: &Error) -> bool {
    let t = tells(e);
    t.contains("EOF") || t.contains("nterminated") || t.contains("LexError")
}

fn lets(text: &str) -> bool {
    text.contains("let") || text.contains('\\')
}
/// There a block would be taken for the pattern of a declaration.
fn ends_with_let(text: &str, tree: &mut Script) -> bool {
    lets(text) && (text.trim_end().ends_with("let") || ast::dump(tree, Detail::Value).lines().last().map_or(false, |l| l.contains("let")))
}

fn c36_sequence(src: &mut Src, case: &mut Case) {
    let goal = astgen::goal(src);
    let a = a_text(src, case);
    let b = a_text(src, case);
    let whole = format!("{}\n{{}}\n{}", a, b);
    let alone = format!("{}; \n{}", blank(&format!("{}\n", a)), b);
    case.set_input(format!("{:?} {:?}, the second part after {}", goal, whole, a.chars().count() + 4));
    if a.contains("use module") || b.contains("use module") {
        return case.class("use module");
    }
    let first = parse(goal, &a);
    let joined = parse(goal, &whole);
    let mut ta = match first {
        Err(ref e) => {
            // let may take the block for a pattern
            if about_the_end(e) || lets(&a) {
                return case.class("first refused at its end");
            }
            case.nontrivial = true;
            case.class("first refused");
            return match joined {
                Ok(_) => case.fail(format!("the first part alone is refused with {:?}, but accepted with more after it", e)),
                Err(ref f) if e == f => (),
                Err(ref f) => case.fail(format!("the first part alone is refused with {:?}, but with more after it with {:?}", e, f)),
            };
        }
        Ok(t) => t,
    };
    if ends_with_let(&a, &mut ta) {
        return case.class("ends with let");
    }
    let strict = ta.dirs.iter().any(|d| d.pragma() == "use strict");
    let under = if strict && goal == Goal::Script { Goal::Strict } else { goal };
    case.nontrivial = true;
    match (joined, parse(under, &alone)) {
        (Err(ref f), Err(ref e)) => {
            case.class("second refused");
            case.check(e == f, || format!("the second part alone is refused with {:?}, but after the first with {:?}", e, f));
        }
        (Ok(_), Err(ref e)) => case.fail(format!("the second part alone is refused with {:?}, but after the first accepted", e)),
        (Err(ref e), Ok(_)) => case.fail(format!("both parts are accepted alone, but together refused with {:?}", e)),
        (Ok(mut got), Ok(tb)) => {
            case.class("both accepted");
            let n = a.chars().count();
            let table = print::posn_table(&whole.chars().collect::<Vec<char>>());
            let block = Span { start: table[n + 1], end: table[n + 3] };
            let Body { location: la, dirs, mut items } = ta;
            let Body { location: lb, dirs: db, items: ib } = tb;
            if !db.is_empty() {
                return case.fail("a directive after a statement");
            }
            let b_empty = ib.len() == 1;
            items.push(StmtListItem::Stmt(Stmt::Block(Block { location: Some(block), items: vec![] })));
            items.extend(ib.into_iter().skip(1));
            let start = match dirs.first().map(|d| *d.tracking_ref()).or_else(|| items.first().map(|i| *i.tracking_ref())) {
                Some(Some(s)) => s.start,
                _ => return case.fail(format!("an item without a location: {:?}", la)),
            };
            let last = items.len() > 0 && b_empty;
            let location = lb.map(|l| Span { start, end: if last { block.end } else { l.end } });
            let mut want: Script = Body { location, dirs, items };
            let (w, g) = (ast::dump(&mut want, Detail::Full), ast::dump(&mut got, Detail::Full));
            if let Some(d) = ast::dump_diff(&w, &g) {
                case.fail(format!("together they mean something else: {}", d));
            }
        }
    }
}

/// The same for programs whose goal is not given: what is left to check is that of the parts, in order.
fn c36_open(src: &mut Src, case: &mut Case) {
    let a = a_text(src, case);
    let b = a_text(src, case);
    let whole = format!("{}\n{{}}\n{}", a, b);
    let alone = format!("{}; \n{}", blank(&format!("{}\n", a)), b);
    case.set_input(format!("{:?}, the second part after {}", whole, a.chars().count() + 4));
    if [&a, &b].iter().any(|t| ["use module", "use strict", "import", "export"].iter().any(|w| t.contains(w))) {
        return case.class("not in general");
    }
    let parts = |t: &str| match esprit::program(t) {
        Ok(esprit::Program::Ambiguous(checks, script)) => Ok((checks, script)),
        Ok(esprit::Program::Module(_)) => panic!("a module without import or export"),
        Err(e) => Err(e),
    };
    let (mut first, mut ta) = match parts(&a) {
        Ok(x) => x,
        Err(_) => return case.class("first refused"),
    };
    if ends_with_let(&a, &mut ta) {
        return case.class("ends with let");
    }
    case.nontrivial = true;
    match (parts(&alone), parts(&whole)) {
        (Err(e), Err(f)) => {
            case.check(e == f, || format!("the second part alone is refused with {:?}, but after the first with {:?}", e, f));
        }
        (Ok((more, _)), Ok((got, _))) => {
            if !first.is_empty() || !more.is_empty() {
                case.class("checks to be done");
            }
            first.extend(more);
            case.check(format!("{:?}", first) == format!("{:?}", got), || format!("left to check {:?}, and should be {:?}", got, first));
        }
        (x, y) => case.fail(format!("the second part alone: {:?}; after the first: {:?}", x.map(|_| ()), y.map(|_| ()))),
    }
}

// ------------------------------------------------------------------ one inside the other

fn indent(l: &str) -> usize {
    l.len() - l.trim_start_matches(' ').len()
}
/// Takes the list of items around a marker out of a dump: that list, and the rest. In a body, its directives and its items.
fn cut(dump: &str, marker: &str, body: bool) -> Option<(Vec<String>, Vec<String>)> {
    let ls: Vec<&str> = dump.lines().collect();
    let m = ls.iter().position(|l| l.contains(marker))?;
    let mut i = m;
    let mut d = indent(ls[m]);
    loop {
        if i == 0 {
            return None;
        }
        i -= 1;
        if indent(ls[i]) < d {
            d = indent(ls[i]);
            let t = ls[i].trim_start();
            if if body { t.starts_with("Body") } else { t == "[" } {
                break;
            }
        }
    }
    let end = (i + 1..ls.len()).find(|&j| indent(ls[j]) <= d).unwrap_or(ls.len());
    let inner = ls[i + 1..end].iter().map(|l| l[d..].to_string()).collect();
    let outer = ls[..i].iter().chain(&ls[end..]).map(|l| l.to_string()).collect();
    Some((inner, outer))
}

/// Whether no part of a text that is cut off by the end of the text could be closed from outside.
fn closes_nothing(t: &str) -> bool {
    if !t.contains(|c| c == '}' || c == ')' || c == ']') {
        return true;
    }
    if t.contains(|c| "'\"/\\<-".contains(c)) {
        return false;
    }
    let mut depth = vec![];
    for c in t.chars() {
        match c {
            '(' | '[' | '{' => depth.push(c),
            ')' | ']' | '}' => match (depth.pop(), c) {
                (Some('('), ')') | (Some('['), ']') | (Some('{'), '}') => (),
                _ => return false,
            },
            _ => (),
        }
    }
    true
}

/// Before, after; H: a list of statements, B: a body, C: a list of statements in a switch, Y: a body of a generator, W: only in code that is not strict.
static HOLES: &[(&str, &str, &str)] = &[
    ("{", "}", "H"), ("{ { a; {", "} b } } c;", "H"), ("if (a) {", "} else b", "H"), ("if (a) ; else {", "} b\nc", "H"), ("while (a) {", "} a\n/b/g", "H"), ("do {", "} while (a) b", "H"), ("do do {", "} while (a); while (b)", "H"),
    ("for (;;) {", "} a", "H"), ("for (var zi = 1; a in b; zi++) {", "} for (;;) break;", "H"), ("for (zk in o) {", "}", "H"), ("for (let zk of o) {", "} ", "H"), ("zl: {", "} zl: a;", "H"), ("zl: zm: for (;;) { {", "} continue zl; break zm }", "H"), ("zl: while (a) { zm: {", "} continue zl; }", "H"),
    ("try {", "} catch (e) { }", "H"), ("try { } catch (e) {", "} finally { a }", "H"), ("try { } finally {", "} /a/g", "H"), ("try { } catch (e) { try {", "} finally { } }", "H"),
    ("switch (s) { case 1:", "}", "C"), ("switch (s) { case 0: break; case 1: a; default:", "case 2: break; }", "C"), ("switch (s) { case 0: switch (t) { default:", "case 3: break } break; default: break; }", "C"), ("zl: for (;;) switch (s) { case 1:", "case 2: continue; case 4: continue zl; case 3: break zl; }", "C"),
    ("while (a) { if (b) {", "} break; } ", "H"), ("for (;;) { {", "} continue }", "H"), ("switch (s) { case 1: {", "} break; default: break }", "H"),
    ("function zf() { {", "} return }", "H"), ("function zf() { while (a) { zl: {", "} return new.target; } }", "H"), ("x = function (a) { for (;;) { {", "} return a; } };", "H"),
    ("with (o) {", "} with (o) a;", "HW"), ("with (o) with (o) { a; {", "} }", "HW"),
    ("function zf() {", "}", "B"), ("function zf() {", "} function zg() { return }", "B"), ("function zf(a, b, ...c) {", "} a", "B"), ("x = function () {", "}\n/b/g", "B"), ("(function zf(a) {", "}())", "B"), ("x = [ function () {", "}, a in b ];", "B"),
    ("({ m() {", "} });", "B"), ("({ get p() {", "}, set p(v) { } });", "B"), ("({ a, set p(v) {", "}, b: c });", "B"), ("({ p: function () {", "} }).p;", "B"), ("x = { m(a) {", "} } / b / c;", "B"),
    ("while (a) { function zf() {", "} break; }", "B"), ("zl: for (;;) { x = function () {", "}; continue zl; }", "B"), ("switch (s) { case 1: x = function () {", "}; break; default: }", "B"), ("function zf() { zl: for (;;) { ({ get p() {", "} }); break zl; return } }", "B"),
    ("for (var zv = function () {", "}; a; b) ;", "B"), ("for (var zv = function () {", "}, zw = (a in b); ;) break;", "B"), ("for (zx = { m() {", "} }; a in b; ) continue;", "B"), ("for (zx in { m() {", "} }) ;", "B"), ("for (x[function () {", "}] of o) ;", "B"), ("for ([x[function () {", "}]] of o) ;", "B"),
    ("do x = function () {", "}\n while (a)", "B"), ("if (function () {", "}) a; else b", "B"), ("new (function () {", "})", "B"), ("a ? function () {", "} : b in c;", "B"), ("x = [a, function () {", "}, ...b];", "B"), ("f(...function () {", "}, a)", "B"), ("throw function () {", "}\n/a/g", "B"), ("({ p: x[function () {", "}], q } = o);", "B"), ("[ x[function () {", "}], y ] = o;", "B"),
    ("x = a => function () {", "}", "-"), ("with (o) x = function () {", "}\nwith (o) a", "BW"),
    ("function* zg() {", "}", "BY"), ("({ *zg(a) {", "} });", "BY"), ("x = function* () {", "}; a", "BY"), ("function zf() { x = function* () {", "}; yield }", "BYW"), ("function* zg() { x = function () {", "} }", "B"), ("function* zg() { ({ get p() {", "} }); }", "B"), ("function* zg() { function zf() {", "} a }", "B"), ("function* zg() { {", "} return a }", "HY"), ("function* zg() { for (;;) { {", "} break } }", "HY"),
];

/// What a jump can refer to in the holes above.
#[derive(Default)]
struct Around {
    function: bool,
    iteration: bool,
    switch: bool,
    labels: Vec<(String, bool)>,
}
impl Around {
    fn enter(&mut self, open: &str) {
        let open = open.replace('\n', " ");
        let mut inner = &open[..];
        if let Some(i) = ["function", "get p(", "set p(", " m(", "*zg("].iter().filter_map(|f| open.rfind(f)).max() {
            *self = Around { function: true, ..Around::default() };
            inner = &open[i + 5..];
        }
        let words: Vec<&str> = inner.split(' ').collect();
        for (i, w) in words.iter().enumerate() {
            match *w {
                "for" | "while" | "do" => self.iteration = true,
                "switch" => self.switch = true,
                w if w.starts_with('z') && w.ends_with(':') => {
                    let next = words[i + 1..].iter().find(|x| !x.ends_with(':')).cloned().unwrap_or("");
                    self.labels.push((w[..w.len() - 1].to_string(), ["for", "while", "do"].contains(&next)));
                }
                _ => (),
            }
        }
    }
    fn jump(&self, src: &mut Src) -> Option<String> {
        let mut all = vec![];
        if self.function {
            all.push("return;".to_string());
            all.push("return zs\n".to_string());
        }
        if self.iteration {
            all.push("continue;".to_string());
        }
        if self.iteration || self.switch {
            all.push("break\n".to_string());
        }
        for l in &self.labels {
            all.push(format!("break {};", l.0));
            if l.1 {
                all.push(format!("continue {}\n", l.0));
            }
        }
        if all.is_empty() || src.chance(1, 3) { None } else { Some(src.pick(&all).clone()) }
    }
}

fn nested(src: &mut Src, goal: Goal, strict: bool, b: &str, words: &str, case: &mut Case) -> Option<(String, String, bool, bool)> {
    let n = 1 + src.below(3);
    let (mut open, mut close) = (String::new(), String::new());
    let (mut body, mut switch) = (false, false);
    let mut k = 0;
    let mut around = Around::default();
    for i in 0..n {
        let &(o, c, kind) = src.pick(HOLES);
        if kind == "-" || kind.contains('W') && (strict || goal != Goal::Script) || kind.contains('Y') && words.contains("yield") || i > 0 && kind.contains('Y') {
            return None;
        }
        // labels apart, and statements after anything but a body's first
        k += 1;
        let rename = |s: &str| s.replace("zl", &format!("zl{}", k)).replace("zm", &format!("zm{}", k));
        if i > 0 {
            match around.jump(src) {
                Some(j) => open.push_str(&format!(" if (zs) {} ", j)),
                None => open.push_str(if src.bool() { " zs; " } else { "\nzs\n" }),
            }
        }
        let mut o = rename(o);
        if src.chance(1, 4) {
            o = o.replace(' ', "\n");
            if o.contains("continue\n") || o.contains("break\n") || o.contains("throw\n") || o.contains("return\n") {
                return None;
            }
        }
        open.push_str(&o);
        around.enter(&o);
        close = format!("{}\n{}", rename(c), close);
        body = kind.starts_with('B');
        switch |= kind.starts_with('C');
        case.class(format!("{} » {}", HOLES.iter().find(|h| h.1 == c && h.2 == kind).unwrap().0, c));
    }
    let _ = b;
    Some((open, close, body, switch))
}

fn c36_wrapping(src: &mut Src, case: &mut Case) {
    let goal = astgen::goal(src);
    let b = a_text(src, case);
    let (open, close, body, switch) = match nested(src, goal, b.contains("use strict"), &b, &b.replace('\\', "yield"), case) {
        Some(x) => x,
        None => return case.set_input("(not here)"),
    };
    let marker = if body { "'zq0';" } else { "zq0;" };
    let wrapped = format!("{}\n{}{}\n{}", open, marker, b, close);
    let base = format!("{}\n{}{}\n", blank(&open), marker, b);
    let empty = format!("{}\n{}{}\n{}", open, marker, blank(&b), close);
    case.set_input(format!("{:?} {:?} of which {:?}", goal, wrapped, b));
    if ["use module", "import", "export", "zl", "zm", "zq"].iter().any(|w| b.contains(w)) {
        return case.class("not in general");
    }
    let mut outer = match parse(goal, &empty) {
        Ok(t) => t,
        Err(e) => return case.fail(format!("with nothing inside it is refused: {:?}", e)),
    };
    match (parse(goal, &base), parse(goal, &wrapped)) {
        (Ok(mut t), Ok(mut w)) => {
            case.nontrivial = true;
            case.class("accepted");
            let dumps: Vec<_> = [&mut t, &mut w, &mut outer].iter_mut().map(|t| cut(&ast::dump(*t, Detail::Full), "zq0", body)).collect();
            let (t, w, o) = match (&dumps[0], &dumps[1], &dumps[2]) {
                (Some(t), Some(w), Some(o)) => (t, w, o),
                _ => return case.fail("the marker is not there"),
            };
            if let Some(d) = ast::dump_diff(&t.0.join("\n"), &w.0.join("\n")) {
                return case.fail(format!("inside it means something else: {}", d));
            }
            let plain = |v: &Vec<String>| v.iter().map(|l| if switch && l.trim_start().starts_with("Case") { l.split(" @").next().unwrap().to_string() } else { l.clone() }).collect::<Vec<_>>().join("\n");
            if let Some(d) = ast::dump_diff(&plain(&o.1), &plain(&w.1)) {
                case.fail(format!("what is around it means something else: {}", d));
            }
        }
        (Ok(_), Err(e)) => case.fail(format!("accepted alone, but inside refused with {:?}", e)),
        (Err(ref e), w) => {
            let jump = match *e {
                Error::TopLevelReturn(_) | Error::IllegalBreak(_) | Error::IllegalContinue(_) | Error::InvalidLabel(_) | Error::InvalidLabelType(_) => true,
                _ => false,
            };
            if jump || about_the_end(e) || !closes_nothing(&b) || switch && (b.contains("case") || b.contains("default")) || lets(&b) || b.contains("target") {
                return case.class("refused alone in a way that matters");
            }
            case.nontrivial = true;
            case.class("refused");
            match w {
                Ok(_) => case.fail(format!("refused alone with {:?}, but inside accepted", e)),
                Err(ref f) if e == f => (),
                Err(ref f) => case.fail(format!("refused alone with {:?}, but inside with {:?}", e, f)),
            }
        }
    }
}

// ------------------------------------------------------------------ an expression in a place for one

/// H: a list in brackets. In a generator, Y; only in code that is not strict, W.
static PLACES: &[(&str, &str)] = &[
    ("H;", ""), ("x = H;", ""), ("x = y += H;", ""), ("H.p = x;", ""), ("H[0]++;", ""), ("++H.p;", ""), ("a[H]++;", ""), ("--a[H].b;", ""), ("a[H] = b;", ""), ("delete a[H];", ""), ("typeof H;", ""), ("- - H;", ""), ("! H;", ""), ("a + H * b;", ""), ("a * H + b;", ""), ("H ? a : b;", ""), ("a ? H : b in c;", ""), ("a ? b : H;", ""),
    ("a || H && b;", ""), ("H instanceof b;", ""), ("a in H;", ""), ("H in a;", ""), ("H, a;", ""), ("a, H;", ""), ("(H);", ""), ("((H), a);", ""), ("[H];", ""), ("[, H, ...H];", "2"), ("f(H);", ""), ("f(a, ...H, b)(H);", "2"), ("new H;", ""), ("new H.p(a);", ""), ("new a(H).b;", ""), ("new new a(H)(b);", ""), ("H(a);", ""), ("H.a(b).c;", ""), ("a[H](b);", ""),
    ("({ a: H });", ""), ("({ a, b: H, c() { } });", ""), ("({ 'a': H, 1: b }).c;", ""), ("({ get p() { return H; } });", ""), ("({ set p(v) { H; } }); a", ""), ("({ m() { H } }).n", ""), ("({ *m() { H } });", "Y"), ("x = { a: H } / b / c;", ""),
    ("(function () { H })();", ""), ("x = function f(a) { return H };", ""), ("function f() { return H\n}", ""), ("function f() { while (a) { H; break } return }", ""), ("function* g() { H }\na", "Y"), ("function* g() { x = function () { H } }", ""), ("function* g() { H; x = function () { return }; }", "Y"),
    ("if (H) a; else b;", ""), ("if (a) H; else b;", ""), ("if (a) H\nelse b", ""), ("if (a) ; else H\nb", ""), ("while (H) break;", ""), ("while (H) continue;", ""), ("do a; while (H) b", ""), ("do H; while (a);", ""), ("do H\n while (a)", ""), ("l: while (H) continue l;", ""), ("l: for (;;) { H; continue l }", ""), ("l: { H; break l }", ""), ("while (a) { H\nbreak }", ""),
    ("for (H;;) break;", ""), ("for (;H;) continue;", ""), ("for (;;H) break;", ""), ("for (H; a in b; H) ;", "2"), ("for (x = H; ;) ;", ""), ("for (x = H, y = H; a in b;) ;", "2"), ("for (var x = H; ;) ;", ""), ("for (var x = H, y = z; a in b; ) ;", ""), ("for (let x = H; H; ) ;", "2"), ("for (const x = H, y = 1;;) ;", ""), ("for (a + H in o) ;", "!"),
    ("for (x in H) ;", ""), ("for (x of H) ;", ""), ("for (var x in H) break;", ""), ("for (let x of H) continue;", ""), ("for (a[H] in o) ;", ""), ("for (a[H] of o) ;", ""), ("for (H.p in o) ;", ""), ("for (H.p of o) ;", ""), ("for ([a[H]] of o) ;", ""), ("for ({ p: a[H] } in o) ;", ""), ("for (a.b[H].c in o) ;", ""), ("for (new a(H).b in o) ;", ""), ("for (x in a, H) ;", ""), ("for (var x = H in o) ;", "W"), ("for (var x = H.p in o, b) ;", "W"), ("for (var x = a ? H : b in o) ;", "W"),
    ("for (a ? H : b; ;) ;", ""), ("for (f(H); a in b;) ;", ""), ("for ({ a: H }.b in o) ;", ""), ("for ({ get p() { return H } }.q in o) ;", ""), ("for (var x = function () { H }; ;) ;", ""), ("for (a[H] = b; c in d;) ;", ""), ("for (var x = a[H]; c in d;) ;", ""), ("for (; a in b; H in c) ;", ""),
    ("switch (H) { case 1: break; }", ""), ("switch (a) { case H: break; default: }", ""), ("switch (a) { default: H; break; case 1: }", ""), ("switch (a) { case 1: case H: H }", "2"), ("throw H;", ""), ("throw H\na", ""), ("with (H) a;", "W"), ("with (a) H\nwith (b) c", "W"),
    ("var x = H;", ""), ("var x = H, y = a in b\nz", ""), ("let x = H\nlet y", ""), ("const x = H, y = 1;", ""), ("let x, y = H;", ""), ("try { H } catch (e) { H } finally { H }", "3"), ("try { } finally { H }\na", ""), ("l: H;", ""), ("l: H\nl: a", ""), ("{ H }\na", ""), ("H\n++a", ""), ("a\nH", "!"),
    ("[x[H]] = a;", ""), ("[x[H], ...y[H]] = a;", "2"), ("({ p: x[H] } = a);", ""), ("({ p: [x[H].q], r } = a);", ""), ("[[], { p: x[H] }] = [a];", ""), ("x[H] = [y[H]] = z;", "2"), ("x = [y[H]] = z;", ""), ("([x[H]].p) = a;", ""), ("[x[H]].p += a;", ""), ("({ p: x[H] }).q = a;", ""),
    ("'use strict'; H;", "S"), ("function f() { 'use strict'; H; }", "S"), ("function f() { 'use strict' } H", ""), ("'a'; H", ""), ("H / a / b;", ""), ("H\n/ a / b;", ""), ("+{ a: H } / b / c", ""),
];

/// Something that is an expression, or nearly.
fn an_expression(src: &mut Src, case: &mut Case) -> String {
    static LITTLE: &[&str] = &[
        "a in b", "a, b in c", "x = a in b", "function () { return }", "function* () { a }", "function () { 'use strict'; }", "function () { while (a) break }", "function () { l: for (;;) continue l }", "function () { l: { x = function () { l: a } } }", "function () { for (var a in b) ; }", "function () { for (x = (a in b); ;) ; }", "{ }", "{ a }", "{ a: b }", "{ get a() { return } }", "{ a, b: [c] } = d", "[a, b] = c", "[a, , ...b]",
        "[(a)] = b", "[(a, b)]", "({ a })", "({ a: 1 })", "({ a }) = b", "[a]", "([a])", "((a)) = b", "(a) += b", "new.target", "function () { new.target }", "yield", "let", "of", "/a/g", "a / b / c", "a++", "++a\n", "a\n++b", "a ? b in c : d in e", "new new a", "new a()()", "-->", "a --> b", "a\n--> b", "break", "return", "1 = a", "f() = a", "f()++", "eval = 1", "arguments++", "public", "010", "'\u{5c}01'", "...a", "a => b", "class { }", "super.x", "`a`", "async", "typeof -- a", "a.if", "a.b.c", "{ if: a }", "{ if }", "{ eval }", "{ a() { }, get b() { }, set b(c) { }, *d() { } }",
        "function (a, ...b) { }", "function eval() { }", "function () { with (a) b }", "function () { 'use strict'; with (a) b }", "function () { yield }", "function* () { x = function () { yield } }", "function () { break }", "function () { continue l }", "function () { switch (a) { default: break } }", "function () { switch (a) { case 1: continue } }", "void 0", "a = b = c", "a ? b : c = d", "(a ? b : c) = d", "a || b = c",
    ];
    match src.below(8) {
        0 | 1 => src.pick(LITTLE).to_string(),
        2 => {
            let (a, b) = (*src.pick(LITTLE), *src.pick(LITTLE));
            let (x, y) = *src.pick(&[("", ", "), ("", " + "), ("a ? ", " : "), ("[", "], "), ("f(", ")\n, "), ("", " = "), ("x = ", " in "), ("a[", "] = "), ("{ p: ", " }, "), ("(", "), ")]);
            format!("{}{}{}{}", x, a, y, b)
        }
        3 | 4 | 5 => {
            let o = Opts { goal: astgen::goal(src), portable: false, size: src.range(1, 25), plain: src.bool(), wild: false };
            let e = Gen::new(src, o.clone()).expr();
            let tree = Body { location: None, dirs: vec![], items: vec![StmtListItem::Stmt(Stmt::Expr(None, e, easter::punc::Semi::Inserted))] };
            let (s, l) = (Style::any(src), Lay::any(src));
            let m = lay(src, o.goal, tree, s, &l);
            if src.chance(1, 4) { mangle(src, &m.toks) } else { m.laid.text }
        }
        6 => a_text(src, case),
        _ => crate::acornprops::phrase_text(src),
    }
}

fn c36_expressions(src: &mut Src, case: &mut Case) {
    let goal = astgen::goal(src);
    let mut e = an_expression(src, case);
    while e.ends_with(';') || e.ends_with(char::is_whitespace) {
        e.pop();
    }
    let &(place, kind) = src.pick(PLACES);
    let mut around: Option<(String, String)> = None;
    if src.chance(1, 2) {
        match nested(src, goal, e.contains("use strict"), &e, &e.replace('\\', "yield"), case) {
            Some((o, c, body, _)) if !(body && kind == "S") => around = Some((o, c)),
            _ => (),
        }
    }
    if kind == "!" || ["zl", "zm", "zq", "import", "export"].iter().any(|w| e.contains(w)) || kind.contains('W') && (goal != Goal::Script || e.contains("use strict") || around.as_ref().map_or(false, |a| a.0.contains("use strict"))) || kind == "Y" && (e.contains("yield") || e.contains('\\')) {
        return case.set_input("(not here)");
    }
    // one of the holes has the expression
    let holes = place.matches('H').count();
    let which = src.below(holes as u64) as usize;
    let pieces: Vec<&str> = place.split('H').collect();
    let (mut before, mut after) = (String::new(), String::new());
    let (o, c) = around.unwrap_or_default();
    before.push_str(&o);
    before.push_str("\n  ");
    for (i, p) in pieces.iter().enumerate() {
        let to = if i <= which { &mut before } else { &mut after };
        to.push_str(p);
        if i != which && i + 1 < pieces.len() {
            to.push_str("[zp]");
        }
    }
    after.push('\n');
    after.push_str(&c);
    let lead = before.trim_end();
    let fun = ["=", "(", ",", "[", "?", "...", "case", "return", "throw", " a:", " b:", " p:", " in", " of", "new", "typeof"].iter().any(|x| lead.ends_with(x)) && !lead.ends_with("case 1:");
    let (left, right) = *src.pick(&[("[zq1, (\n", "\n)]"), ("(zq1,\n", "\n)"), ("zf(zq1,\n", "\n)"), ("zx[zq1,\n", "\n]"), if fun { ("function (zy, zz) { [zq1,\n(", "\n)] }") } else { ("((zq1,\n", "\n))") }]);
    let marked = format!("{}{}{}", left, e, right);
    case.class(left);
    let inside = format!("{}{}{}", before, marked, after);
    let mut alone = blank(&before);
    if fun {
        // not at the start of a statement
        alone.pop();
        alone.pop();
        alone.push_str("x=");
    }
    alone = format!("{}{};", alone, marked);
    let other = format!("{}{}", blank(&before), if right.ends_with(')') { format!("zq0[\n{}\n];", e) } else { format!("(zq1,\n{}\n);", e) });
    let empty = format!("{}{}0{}{}{}", before, left, if e.is_empty() { String::new() } else { blank(&e.chars().skip(1).collect::<String>()) }, right, after);
    case.set_input(format!("{:?} {:?} of which {:?}", goal, inside, e));
    if e.is_empty() || reflex::is_nl(e.chars().next().unwrap()) {
        return case.class("starts with a newline");
    }
    // strict in itself, strict where it is
    let strict = kind == "S" && goal == Goal::Script;
    let under = if strict { Goal::Strict } else { goal };
    let mut outer = match parse(goal, &empty) {
        Ok(t) => t,
        Err(x) => return case.fail(format!("with 0 there it is refused: {:?}", x)),
    };
    match (parse(under, &alone), parse(goal, &inside)) {
        (Ok(mut t), w) => {
            if parse(under, &other).is_err() {
                return case.class("not balanced");
            }
            case.nontrivial = true;
            case.class(place);
            let mut w_tree = match w {
                Ok(w) => w,
                Err(x) => return case.fail(format!("accepted alone, but there refused with {:?}", x)),
            };
            let dumps: Vec<_> = [&mut t, &mut w_tree, &mut outer].iter_mut().map(|t| cut(&ast::dump(*t, Detail::Full), "zq1", false)).collect();
            let (t, w, o) = match (&dumps[0], &dumps[1], &dumps[2]) {
                (Some(t), Some(w), Some(o)) => (t, w, o),
                _ => return case.fail("the marker is not there"),
            };
            if let Some(d) = ast::dump_diff(&t.0.join("\n"), &w.0.join("\n")) {
                return case.fail(format!("there it means something else: {}", d));
            }
            // a sequence ends where its last part does, and the places of what holds it follow
            let (o, w) = if left.starts_with('(') || left.starts_with("zx") {
                let parts: Vec<_> = [&mut outer, &mut w_tree].iter_mut().map(|t| cut(&ast::dump(*t, Detail::Source), "zq1", false)).collect();
                match (&parts[0], &parts[1]) {
                    (Some(o), Some(w)) => (o.1.join("\n"), w.1.join("\n")),
                    _ => return case.fail("the marker is not there"),
                }
            } else {
                (o.1.join("\n"), w.1.join("\n"))
            };
            if let Some(d) = ast::dump_diff(&o, &w) {
                case.fail(format!("what is around it means something else: {}", d));
            }
        }
        (Err(ref x), w) => {
            let jump = match *x {
                Error::TopLevelReturn(_) | Error::IllegalBreak(_) | Error::IllegalContinue(_) | Error::InvalidLabel(_) | Error::InvalidLabelType(_) => true,
                _ => false,
            };
            if jump || about_the_end(x) || !closes_nothing(&e) || e.contains("target") || parse(under, &other).err().map_or(true, |y| &y != x) {
                return case.class("refused alone in a way that matters");
            }
            case.nontrivial = true;
            case.class("refused");
            match w {
                Ok(_) => case.fail(format!("refused alone with {:?}, but there accepted", x)),
                Err(ref f) if x == f => (),
                Err(ref f) => case.fail(format!("refused alone with {:?}, but there with {:?}", x, f)),
            }
        }
    }
}

// ------------------------------------------------------------------ escapes in words

/// Where names and keys stand in the text.
struct Words {
    kind: &'static str,
    at: Vec<(&'static str, Span)>,
}
impl ast::Vis for Words {
    fn open(&mut self, k: &'static str) {
        self.kind = k;
    }
    fn loc(&mut self, l: &mut Option<Span>) {
        if let (k @ "Id", Some(s)) | (k @ "DotKey", Some(s)) | (k @ "KeyId", Some(s)) = (self.kind, *l) {
            self.at.push((k, s));
        }
        self.kind = "";
    }
}

/// A text with one of its characters written as an escape, and where its places went.
struct Escaped {
    text: String,
    at: usize,
    grown: usize,
    table: Vec<joker::track::Posn>,
}
fn escape(src: &mut Src, cs: &[char], from: usize, to: usize) -> Escaped {
    let at = from + src.below((to - from) as u64) as usize;
    let c = cs[at] as u32;
    let e = if c > 0xffff || src.bool() { format!("\\u{{{}{:x}}}", "0".repeat(src.below(4) as usize), c) } else if src.bool() { format!("\\u{:04x}", c) } else { format!("\\u{:04X}", c) };
    let text: String = cs[..at].iter().collect::<String>() + &e + &cs[at + 1..].iter().collect::<String>();
    let table = print::posn_table(&text.chars().collect::<Vec<char>>());
    Escaped { text, at, grown: e.chars().count() - 1, table }
}
impl Escaped {
    fn posn(&self, p: joker::track::Posn) -> joker::track::Posn {
        let o = p.offset as usize;
        self.table[if o > self.at { o + self.grown } else { o }]
    }
    fn span(&self, s: Span) -> Span {
        Span { start: self.posn(s.start), end: self.posn(s.end) }
    }
    fn tree(&self, t: &mut Script) {
        ast::relocate(
            t,
            |l| *l = l.map(|s| self.span(s)),
            |s| {
                if let easter::punc::Semi::Explicit(Some(ref mut p)) = *s {
                    *p = self.posn(*p)
                }
            },
        );
    }
}
fn reserved(w: &str) -> bool {
    crate::tok::RESERVED.iter().any(|r| r.0 == w)
}
fn refused_escape(got: Result<Script, Error>, w: &str, case: &mut Case) {
    match got {
        Err(Error::LexError(joker::error::Error::ReservedWordWithEscapes(ref r))) if crate::tok::RESERVED.iter().any(|x| x.0 == w && &x.1 == r) => (),
        Err(e) => case.fail(format!("the reserved word {} with an escape in it: {:?}", w, e)),
        Ok(_) => case.fail(format!("the reserved word {} is accepted with an escape in it", w)),
    }
}

fn c37_names(src: &mut Src, case: &mut Case) {
    let goal = astgen::goal(src);
    let text = a_text(src, case);
    let cs: Vec<char> = text.chars().collect();
    case.set_input(format!("{:?} {:?}", goal, text));
    match parse(goal, &text) {
        Ok(mut t) => {
            let mut w = Words { kind: "", at: vec![] };
            ast::Walk::walk(&mut t, &mut w);
            w.at.retain(|x| !cs[x.1.start.offset as usize..x.1.end.offset as usize].contains(&'\\'));
            if w.at.is_empty() {
                return case.class("no names");
            }
            let &(kind, s) = src.pick(&w.at);
            let e = escape(src, &cs, s.start.offset as usize, s.end.offset as usize);
            let word: String = cs[s.start.offset as usize..s.end.offset as usize].iter().collect();
            case.set_input(format!("{:?} {:?}", goal, e.text));
            case.nontrivial = true;
            case.class(kind);
            let got = parse(goal, &e.text);
            if reserved(&word) {
                case.class("reserved word as key");
                return refused_escape(got, &word, case);
            }
            e.tree(&mut t);
            match got {
                Err(x) => case.fail(format!("with an escape in the name {} it is refused: {:?}", word, x)),
                Ok(mut g) => {
                    if let Some(d) = ast::dump_diff(&ast::dump(&mut t, Detail::Full), &ast::dump(&mut g, Detail::Full)) {
                        case.fail(format!("with an escape in the name {} it means something else: {}", word, d));
                    }
                }
            }
        }
        Err(x) => {
            let s = match x {
                Error::ContextualKeyword(s, _) | Error::IllegalStrictBinding(s, _) => s,
                Error::InvalidLabel(ref id) | Error::InvalidLabelType(ref id) => match *id.tracking_ref() {
                    Some(s) => s,
                    None => return case.fail(format!("no location in {:?}", x)),
                },
                _ => return case.class("refused for another reason"),
            };
            let (from, to) = (s.start.offset as usize, s.end.offset as usize);
            let word: String = cs[from..to].iter().collect();
            if word.contains('\\') {
                return case.class("escaped already");
            }
            let e = escape(src, &cs, from, to);
            case.set_input(format!("{:?} {:?}", goal, e.text));
            case.nontrivial = true;
            case.class("blamed word");
            let y = match x {
                Error::ContextualKeyword(s, a) => Error::ContextualKeyword(e.span(s), a),
                Error::IllegalStrictBinding(s, a) => Error::IllegalStrictBinding(e.span(s), a),
                Error::InvalidLabel(mut id) => {
                    id.location = id.location.map(|s| e.span(s));
                    Error::InvalidLabel(id)
                }
                Error::InvalidLabelType(mut id) => {
                    id.location = id.location.map(|s| e.span(s));
                    Error::InvalidLabelType(id)
                }
                x => x,
            };
            match parse(goal, &e.text) {
                Ok(_) => case.fail(format!("with an escape in {} it is accepted, and without it {:?}", word, y)),
                Err(ref z) if z == &y => (),
                Err(z) => case.fail(format!("with an escape in {} the error is {:?}, and should be {:?}", word, z, y)),
            }
        }
    }
}

fn c37_keywords(src: &mut Src, case: &mut Case) {
    let goal = astgen::goal(src);
    let o = Opts { goal, portable: false, size: src.range(1, 40), plain: src.bool(), wild: false };
    let (s, l) = (Style::any(src), Lay::any(src));
    let mut m = make(src, o, s, &l);
    case.set_input(m.input());
    let mut w = Words { kind: "", at: vec![] };
    ast::Walk::walk(&mut m.tree, &mut w);
    let name_at = |p: usize| w.at.iter().any(|x| x.1.start.offset as usize == p);
    let mut picks = vec![];
    for (i, t) in m.toks.iter().enumerate() {
        let special = ["get", "set", "of", "let", "target"].contains(&&t.text[..]) && !name_at(m.laid.places[i].0.offset as usize);
        if special || reserved(&t.text) {
            picks.push((i, special));
        }
    }
    // rarer words as often as the common ones
    let kinds: std::collections::BTreeSet<&str> = picks.iter().map(|p| &m.toks[p.0].text[..]).collect();
    if kinds.is_empty() {
        return case.class("no keywords");
    }
    let kinds: Vec<&str> = kinds.into_iter().collect();
    let k = *src.pick(&kinds);
    picks.retain(|p| m.toks[p.0].text == k);
    let (i, special) = *src.pick(&picks);
    let word = m.toks[i].text.clone();
    let (from, to) = (m.laid.places[i].0.offset as usize, m.laid.places[i].1.offset as usize);
    if m.laid.chars[from..to].iter().collect::<String>() != word {
        return case.fail(format!("{} is not at {}", word, from));
    }
    let e = escape(src, &m.laid.chars, from, to);
    case.set_input(format!("{:?} {:?}", goal, e.text));
    case.class(word.clone());
    case.nontrivial = true;
    let got = parse(goal, &e.text);
    if !special {
        return refused_escape(got, &word, case);
    }
    if let Ok(mut g) = got {
        case.class("accepted as a name");
        m.laid.canonical(&mut g);
        if ast::dump(&mut g, Detail::Value) == ast::dump(&mut m.tree, Detail::Value) {
            case.fail(format!("{} with an escape in it still counts as a keyword", word));
        }
    }
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C36",
        rule: "the text was parsed both alone and with something around it, and the two were compared: items, locations, terminators, or the error",
        subs: vec![sub("sequence", c36_sequence, 60000, 3000000), sub("wrapping", c36_wrapping, 60000, 3000000), sub("open goal", c36_open, 60000, 2000000), sub("expressions", c36_expressions, 100000, 4000000)],
        assumptions: vec![],
    }, Check {
        id: "C37",
        rule: "a word of the text was written with an escape, and the outcome compared with that for the text without it",
        subs: vec![sub("names", c37_names, 100000, 4000000), sub("keywords", c37_keywords, 80000, 3000000)],
        assumptions: vec![],
    }]
}
