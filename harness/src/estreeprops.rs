//! Checks of the ESTree reader: C27 and C28.
use crate::acorn;
use crate::ast::{self, Detail, Vis, Walk};
use crate::astgen::{self, Gen, Goal, Opts};
use crate::engine::*;
use crate::estree_enc::{self, s, Enc, Obj};
use crate::parsedrv::*;
use crate::print::{Lay, Style};
use easter::expr::Expr;
use easter::stmt::Script;
use estree::error::Error;
use estree::{ESTreeScript, IntoScript};
use joker::track::Untrack;
use serde_json::value::Value;
use std::sync::OnceLock;
use unjson::ty::{Ty, TyOf};

// ------------------------------------------------------------------ what ESTree does not tell apart

/// A string in parentheses at the start of a body cannot be told from a directive: such statements
/// move behind the others, or go.
struct NoLeadingStrings(Vec<(bool, u32)>);
impl Vis for NoLeadingStrings {
    fn open(&mut self, kind: &'static str) {
        self.0.push((kind == "Body", 0));
    }
    fn close(&mut self) {
        self.0.pop();
    }
    fn list<T: Clone + Walk>(&mut self, v: &mut Vec<T>, _: bool) {
        if let Some(top) = self.0.last_mut() {
            top.1 += 1;
            if *top == (true, 2) {
                let n = v.iter().take_while(|x| x.is_string_stmt()).count();
                if n == v.len() {
                    v.clear();
                } else {
                    v.rotate_left(n);
                }
            }
        }
    }
}
/// `new a` and `new a()` are one document.
struct Arguments;
impl Vis for Arguments {
    fn expr(&mut self, e: &mut Expr) {
        if let Expr::New(_, _, ref mut args @ None) = *e {
            *args = Some(vec![]);
        }
    }
}

fn decode(v: &Value) -> Result<Result<Script, Error>, String> {
    let o: Obj = match *v {
        Value::Object(ref o) => o.clone(),
        _ => panic!("{}: not a document", NO_PROGRESS),
    };
    catch(|| o.into_script())
}

fn render(v: &Value) -> String {
    let mut t = serde_json::to_string(v).unwrap_or_default();
    if t.chars().count() > 2500 {
        t = t.chars().take(2500).collect::<String>() + " ...";
    }
    t
}

fn agree(doc: &Value, want: &mut Script, case: &mut Case) {
    let mut got = match decode(doc) {
        Err(p) => return case.fail(p),
        Ok(Err(e)) => return case.fail(format!("refused: {}", e)),
        Ok(Ok(t)) => t,
    };
    want.walk(&mut Arguments);
    let (w, g) = (ast::dump(want, Detail::Value), ast::dump(&mut got, Detail::Value));
    if let Some(d) = ast::dump_diff(&w, &g) {
        return case.fail(d);
    }
    if got != *want {
        return case.fail("the decoded tree is not equal to the tree the document describes");
    }
    // nothing in a document is a location in a source text
    let mut erased = got.clone();
    ast::erase(&mut erased);
    if let Some(d) = ast::dump_diff(&ast::dump(&mut erased, Detail::Tracked), &ast::dump(&mut got, Detail::Tracked)) {
        return case.fail(format!("the decoded tree is not untracked: {}", d));
    }
    if let Err(e) = serde_json::from_value::<ESTreeScript>(doc.clone()) {
        case.fail(format!("refused by the deserialiser: {}", e));
    }
}

fn tree(src: &mut Src, size: i64) -> (Goal, Script) {
    let goal = astgen::goal(src);
    let mut o = Opts::new(goal, src.range(1, size));
    o.plain = src.bool();
    let mut t = Gen::new(src, o).program();
    t.walk(&mut NoLeadingStrings(vec![]));
    (goal, t)
}

fn c27_trees(src: &mut Src, case: &mut Case) {
    let (_, mut t) = tree(src, 40);
    let extras = src.bool();
    let mut enc = Enc::free(src, extras);
    let doc = enc.script(&t);
    case.nontrivial = enc.nodes > 6;
    case.set_input(render(&doc));
    kinds(&mut t, case);
    agree(&doc, &mut t, case);
}

/// The tree comes from the parser.
fn c27_sources(src: &mut Src, case: &mut Case) {
    let (goal, t) = tree(src, 30);
    let l = Lay::any(src);
    let made = lay(src, goal, t, Style { parens: 8, escapes: true, commas: true, param_commas: false }, &l);
    let mut t = match parse(goal, &made.laid.text) {
        Ok(t) => t,
        Err(e) => return case.fail(format!("rejected: {:?}", e)),
    };
    t.untrack();
    let mut enc = Enc::free(src, true);
    let doc = enc.script(&t);
    case.nontrivial = enc.nodes > 6;
    case.set_input(format!("{}\n{}", made.laid.text, render(&doc)));
    agree(&doc, &mut t, case);
}

/// The documents of other parsers say the same as the tree of the parser under test.
fn c27_documents(src: &mut Src, case: &mut Case) {
    let goal = astgen::goal(src);
    let mut o = Opts::new(goal, src.range(1, 40));
    o.portable = true;
    o.plain = src.bool();
    let mut t = Gen::new(src, o).program();
    t.walk(&mut NoLeadingStrings(vec![]));
    let mut l = Lay::any(src);
    l.html = false;
    let made = lay(src, goal, t, Style { parens: 8, escapes: true, commas: true, param_commas: false }, &l);
    let parser = if src.bool() { "acorn" } else { "esprima" };
    let version = *src.pick(&[6, 8, 8, 11, 13, 14]);
    let extras = src.bool();
    case.set_input(format!("{} {} {:?}\n{}", parser, version, goal, made.laid.text));
    let doc = match acorn::document(goal, &made.laid.text, parser, version, extras) {
        Ok(d) => d,
        Err(why) => return case.class(why),
    };
    let mut t = match parse(goal, &made.laid.text) {
        Ok(t) => t,
        Err(e) => return case.fail(format!("rejected: {:?}", e)),
    };
    t.untrack();
    case.nontrivial = true;
    case.class(parser);
    case.set_input(format!("{} {} {:?}\n{}\n{}", parser, version, goal, made.laid.text, render(&doc)));
    agree(&doc, &mut t, case);
}

// ------------------------------------------------------------------ corruption

#[derive(Clone, Debug)]
pub enum Step {
    Key(String),
    Idx(usize),
}
pub type Path = Vec<Step>;

fn paths(v: &Value, here: &mut Path, out: &mut Vec<Path>) {
    match *v {
        Value::Object(ref o) => {
            for (k, x) in o {
                here.push(Step::Key(k.clone()));
                out.push(here.clone());
                paths(x, here, out);
                here.pop();
            }
        }
        Value::Array(ref a) => {
            for (i, x) in a.iter().enumerate() {
                here.push(Step::Idx(i));
                out.push(here.clone());
                paths(x, here, out);
                here.pop();
            }
        }
        _ => (),
    }
}
fn at<'a>(v: &'a mut Value, p: &[Step]) -> &'a mut Value {
    let mut v = v;
    for st in p {
        v = match (v, st) {
            (&mut Value::Object(ref mut o), &Step::Key(ref k)) => o.get_mut(k).unwrap(),
            (&mut Value::Array(ref mut a), &Step::Idx(i)) => &mut a[i],
            _ => unreachable!(),
        };
    }
    v
}
fn remove(v: &mut Value, p: &[Step]) -> Value {
    let (last, up) = p.split_last().unwrap();
    match (at(v, up), last) {
        (&mut Value::Object(ref mut o), &Step::Key(ref k)) => o.remove(k).unwrap(),
        (&mut Value::Array(ref mut a), &Step::Idx(i)) => a.remove(i),
        _ => unreachable!(),
    }
}
fn show(p: &[Step]) -> String {
    p.iter()
        .map(|s| match *s {
            Step::Key(ref k) => format!(".{}", k),
            Step::Idx(i) => format!("[{}]", i),
        })
        .collect()
}
fn ends_in_type(p: &[Step]) -> bool {
    match p.last() {
        Some(&Step::Key(ref k)) => k == "type",
        _ => false,
    }
}

static KNOWN_TAGS: &[&str] = &[
    "Identifier", "Literal", "BinaryExpression", "AssignmentExpression", "LogicalExpression", "UnaryExpression", "UpdateExpression",
    "MemberExpression", "CallExpression", "NewExpression", "ArrayExpression", "FunctionExpression", "SequenceExpression", "ObjectExpression",
    "ConditionalExpression", "ThisExpression", "MetaProperty", "SpreadElement", "RestElement", "FunctionDeclaration", "VariableDeclaration",
    "EmptyStatement", "ExpressionStatement", "IfStatement", "DoWhileStatement", "WhileStatement", "ForStatement", "ForInStatement",
    "ForOfStatement", "BlockStatement", "ReturnStatement", "LabeledStatement", "BreakStatement", "ContinueStatement", "SwitchStatement",
    "WithStatement", "ThrowStatement", "DebuggerStatement", "TryStatement", "Program", "Property", "VariableDeclarator", "SwitchCase",
    "CatchClause",
];
/// Not node types, or not of the supported language.
static OTHER_TAGS: &[&str] = &[
    "", "identifier", "Identifier ", "Ident", "Expression", "Statement", "ArrowFunctionExpression", "TemplateLiteral", "ClassDeclaration",
    "YieldExpression", "ImportDeclaration", "ExportNamedDeclaration", "Super", "BlockStatements", "IFStatement", "\u{1F600}", "null", "ForStatemen",
];
static WORDS: &[&str] = &[
    "", "x", "var", "let", "const", "init", "get", "set", "=", "+=", "**", "==", "===", "in", "of", "instanceof", "typeof", "void", "delete", "-",
    "+", "!", "~", "++", "--", "&&", "||", "??", "new", "target", ">>>", ">>>=", "=>", "use strict", " +", "**=",
];

fn scalar(src: &mut Src) -> Value {
    match src.below(10) {
        0 => Value::Null,
        1 => Value::Bool(false),
        2 => Value::Bool(true),
        3 => Value::U64(src.below(3)),
        4 => Value::I64(-1),
        5 => Value::F64(1.5),
        6 => s(*src.pick(WORDS)),
        7 => Value::Array(vec![]),
        8 => Value::Object(Obj::new()),
        _ => s("a"),
    }
}

fn corrupt(src: &mut Src, doc: &mut Value) -> (String, Option<String>) {
    let mut all = vec![];
    paths(doc, &mut vec![], &mut all);
    if all.is_empty() {
        return ("nothing".to_string(), None);
    }
    let p = src.pick(&all).clone();
    let place = show(&p);
    let old = at(doc, &p).clone();
    let op = src.below(9);
    if ends_in_type(&p) {
        let (t, unknown) = if src.bool() { (*src.pick(OTHER_TAGS), true) } else { (*src.pick(KNOWN_TAGS), false) };
        if op > 1 {
            *at(doc, &p) = s(t);
            return (format!("{} := {:?}", place, t), if unknown { Some(t.to_string()) } else { None });
        }
    }
    let what = match (op, &old) {
        (0, _) => {
            remove(doc, &p);
            "removed".to_string()
        }
        (2, &Value::String(_)) | (3, &Value::String(_)) => {
            let w = *src.pick(WORDS);
            *at(doc, &p) = s(w);
            format!(":= {:?}", w)
        }
        (2, &Value::Bool(b)) | (3, &Value::Bool(b)) => {
            *at(doc, &p) = Value::Bool(!b);
            "negated".to_string()
        }
        (2, &Value::Array(ref a)) | (3, &Value::Array(ref a)) => {
            let mut a = a.clone();
            let what = match src.below(5) {
                0 if !a.is_empty() => {
                    let x = a[src.below(a.len() as u64) as usize].clone();
                    a.push(x);
                    "with an element again at the end"
                }
                1 if a.len() > 1 => {
                    let n = a.len();
                    a.swap(0, n - 1);
                    "with ends swapped"
                }
                2 => {
                    a.push(scalar(src));
                    "with a value at the end"
                }
                3 => {
                    let q = src.pick(&all).clone();
                    let x = at(doc, &q).clone();
                    a.insert(0, x);
                    "with another part in front"
                }
                _ => {
                    a.insert(0, Value::Null);
                    "with null in front"
                }
            };
            *at(doc, &p) = Value::Array(a);
            what.to_string()
        }
        (2, &Value::Object(_)) | (3, &Value::Object(_)) | (4, _) | (5, _) => {
            let q = src.pick(&all).clone();
            let x = at(doc, &q).clone();
            *at(doc, &p) = x;
            format!(":= copy of {}", show(&q))
        }
        (6, _) => match p.last() {
            Some(&Step::Key(ref k)) => {
                let x = remove(doc, &p);
                let name = match src.below(3) {
                    0 => format!("{}_", k),
                    1 => k.to_uppercase(),
                    _ => src.pick(&["body", "id", "init", "left", "value", "argument"]).to_string(),
                };
                if let &mut Value::Object(ref mut o) = at(doc, &p[..p.len() - 1]) {
                    o.insert(name.clone(), x);
                }
                format!("renamed to {}", name)
            }
            _ => {
                *at(doc, &p) = Value::Array(vec![old.clone()]);
                "wrapped in an array".to_string()
            }
        },
        (7, _) => {
            *at(doc, &p) = Value::Array(vec![old.clone()]);
            "wrapped in an array".to_string()
        }
        _ => {
            let x = scalar(src);
            let t = render(&x);
            *at(doc, &p) = x;
            format!(":= {}", t)
        }
    };
    (format!("{} {}", place, what), None)
}

/// The reader accepts a document exactly when it is well formed, and then the tree says all of what
/// the document says and nothing else.
fn verdict(doc: &Value, unknown: Option<&str>, case: &mut Case) {
    let want = estree_enc::normal(doc);
    let got = match decode(doc) {
        Err(p) => return case.fail(p),
        Ok(g) => g,
    };
    let accepted = got.is_ok();
    let mut message = String::new();
    match (want, got) {
        (Err(why), Ok(_)) => return case.fail(format!("accepted, though {}", why)),
        (Ok(_), Err(e)) => return case.fail(format!("refused, though well formed: {}", e)),
        (Ok(want), Ok(t)) => {
            case.class("still well formed");
            let again = Enc::plain().script(&t);
            match estree_enc::normal(&again) {
                Ok(ref n) if *n == want => (),
                Ok(n) => return case.fail(format!("decoded as {}, which is not what the document says: {}", render(&n), render(&want))),
                Err(e) => return case.fail(format!("decoded to a tree that has no document: {}", e)),
            }
        }
        (Err(why), Err(e)) => {
            case.class(class_of(&why));
            message = match catch(|| e.to_string()) {
                Ok(m) => m,
                Err(p) => return case.fail(format!("displaying the error: {}", p)),
            };
            if message.is_empty() {
                return case.fail("the error has no text");
            }
            if let Some(t) = unknown {
                match e {
                    Error::InvalidTypeTag(ref u) if u == t => (),
                    _ => return case.fail(format!("the unknown type {:?} is reported as {}", t, message)),
                }
                if !message.contains(t) {
                    return case.fail(format!("the text of the error does not name the type {:?}: {}", t, message));
                }
            }
        }
    }
    match catch(|| serde_json::from_value::<ESTreeScript>(doc.clone()).map(|_| ()).map_err(|e| e.to_string())) {
        Err(p) => case.fail(p),
        Ok(Ok(())) if !accepted => case.fail("accepted by the deserialiser only"),
        Ok(Err(e)) if accepted => case.fail(format!("refused by the deserialiser only: {}", e)),
        Ok(Err(e)) if !e.contains(&message) => case.fail(format!("the deserialiser reports {:?} instead of {:?}", e, message)),
        _ => (),
    }
}

fn class_of(why: &str) -> String {
    for k in &["has no field", "is not a string", "is not a boolean", "is not an array", "is not an object", "is expected", " is \""] {
        if why.contains(k) {
            return k.trim().to_string();
        }
    }
    why.chars().filter(|c| !c.is_digit(10)).collect()
}

fn c28_corrupted(src: &mut Src, case: &mut Case) {
    let (_, t) = tree(src, 16);
    let mut doc = Enc::free(src, false).script(&t);
    let n = if src.chance(1, 4) { 2 + src.below(2) } else { 1 };
    let mut done = vec![];
    let mut unknown = None;
    for _ in 0..n {
        let (what, u) = corrupt(src, &mut doc);
        done.push(what);
        unknown = u;
    }
    if n > 1 {
        unknown = None;
    }
    case.set_input(format!("{}: {}", done.join(", "), render(&doc)));
    case.nontrivial = true;
    verdict(&doc, unknown.as_ref().map(|s| &s[..]), case);
}

/// The nodes ESTree has for destructuring are outside the supported language: refused by name.
fn c28_patterns(src: &mut Src, case: &mut Case) {
    let mut o = Opts::new(astgen::goal(src), src.range(3, 14));
    o.plain = true;
    o.wild = true;
    let mut t = Gen::new(src, o).program();
    t.walk(&mut NoLeadingStrings(vec![]));
    let mut enc = Enc::free(src, false);
    enc.patterns = true;
    let doc = enc.script(&t);
    case.nontrivial = enc.pattern_nodes > 0;
    case.set_input(render(&doc));
    verdict(&doc, None, case);
    if !case.failed() && enc.pattern_nodes > 0 {
        match decode(&doc) {
            Ok(Err(Error::InvalidTypeTag(ref t))) if t == "ArrayPattern" || t == "ObjectPattern" => (),
            Ok(Err(e)) => case.fail(format!("a pattern is reported as {}", e)),
            _ => case.fail("a pattern is accepted"),
        }
    }
}

/// Values that look like documents here and there.
fn any_json(src: &mut Src, depth: u32) -> Value {
    static FIELDS: &[&str] = &[
        "type", "body", "expression", "left", "right", "operator", "argument", "name", "value", "id", "params", "generator", "declarations", "kind",
        "init", "test", "consequent", "alternate", "elements", "properties", "key", "computed", "method", "shorthand", "prefix", "callee",
        "arguments", "regex", "pattern", "flags", "label", "block", "handler", "finalizer", "param", "object", "property", "cases", "discriminant",
        "expressions", "update", "meta",
    ];
    if depth == 0 || src.chance(1, 5) {
        return scalar(src);
    }
    if src.chance(1, 4) {
        let n = src.count(1, 4);
        return Value::Array((0..n).map(|_| any_json(src, depth - 1)).collect());
    }
    let mut o = Obj::new();
    if src.chance(7, 8) {
        o.insert("type".to_string(), s(*src.pick(KNOWN_TAGS)));
    }
    let n = src.count(4, 12);
    for _ in 0..n {
        let k = *src.pick(FIELDS);
        let v = match k {
            "type" | "operator" | "name" | "kind" if src.chance(3, 4) => s(*src.pick(WORDS)),
            "body" | "params" | "declarations" | "elements" | "properties" | "arguments" | "cases" | "expressions" if src.chance(3, 4) => {
                let n = src.count(1, 3);
                Value::Array((0..n).map(|_| any_json(src, depth - 1)).collect())
            }
            _ => any_json(src, depth - 1),
        };
        o.insert(k.to_string(), v);
    }
    Value::Object(o)
}

fn c28_arbitrary(src: &mut Src, case: &mut Case) {
    let mut doc = Obj::new();
    if src.chance(7, 8) {
        doc.insert("type".to_string(), s("Program"));
    }
    let n = src.count(2, 4);
    let body = if src.chance(7, 8) { Value::Array((0..n).map(|_| any_json(src, 5)).collect()) } else { any_json(src, 3) };
    if src.chance(15, 16) {
        doc.insert("body".to_string(), body);
    }
    let doc = Value::Object(doc);
    case.set_input(render(&doc));
    case.nontrivial = n > 0;
    verdict(&doc, None, case);
}

// ------------------------------------------------------------------ every field of every form

static FORMS: &[&str] = &[
    "'use strict'; 'other'",
    ";",
    "{ a; { } }",
    "var a, b = 1",
    "let a, b = 1",
    "const a = 1, b = 2",
    "function f() { }",
    "function* f(a, b, ...c) { 'use strict'; 'd'; a }",
    "if (a) b",
    "if (a) b; else c",
    "do a; while (b)",
    "while (a) { b }",
    "for (;;) ;",
    "for (a; b; c) d",
    "for (var a = 1, b; c; d) e",
    "for (let a = 1; ; ) b",
    "for (const a = 1; ; ) b",
    "for (a in b) c",
    "for (a.b in c) d",
    "for ([a, ...b] in c) d",
    "for (var a in b) c",
    "for (var a = 1 in b) c",
    "for (let a in b) c",
    "for (const a in b) c",
    "for (a of b) c",
    "for ({a, b: c[d]} of e) f",
    "for (var a of b) c",
    "for (let a of b) c",
    "for (const a of b) c",
    "a: for (;;) { continue a; continue; break a; break }",
    "a: b",
    "(function () { return; return a })",
    "switch (a) { case b: c; d; default: e; case f: }",
    "with (a) b",
    "throw a",
    "debugger",
    "try { a } catch (b) { c }",
    "try { a } finally { c }",
    "try { a } catch (b) { c } finally { d }",
    "a; 'b'",
    "'a' + \"b\"",
    "1; 0x10; 1.5; 1e400",
    "null; true; false",
    "/a[/]b/gi",
    "this",
    "a + b; a - b; a * b; a / b; a % b; a < b; a <= b; a > b; a >= b; a == b; a != b; a === b; a !== b",
    "a << b; a >> b; a >>> b; a | b; a ^ b; a & b; a in b; a instanceof b",
    "a && b; a || b",
    "+a; -a; !a; ~a; typeof a; void a; delete a.b",
    "a++; a--; ++a; --a",
    "++a.b; a[b]--",
    "a = b; a.b = c; a[b] = c",
    "a += b; a -= b; a *= b; a /= b; a %= b; a.b <<= c; a[b] >>= c; a >>>= b; a |= b; a ^= b; a &= b",
    "[a, , b.c, [d], ...e[f]] = g",
    "({a, b: c, 'd': e.f, 1: [g], h: {i}} = j)",
    "a ? b : c",
    "a, b, c",
    "a(); a(b, ...c); a(...b, c)",
    "new a; new a(); new a(b, ...c)",
    "a.b; a.if; a[b]",
    "[]; [a]; [a, , ...b, ]",
    "(function f(a) { new.target })",
    "(function* () { })",
    "({}); ({a: b}); ({'a': 1, 1: b, if: c})",
    "({a, b})",
    "({get a() { return b }, set a(b) { }})",
    "({get 'a'() { 'use strict' }, set 1(b) { }})",
    "({a() { }, *b(c, ...d) { e }, 'f'() { }, 2() { }})",
];

type Spot = (usize, Path, usize);
static OPS: usize = 12;

struct Table {
    docs: Vec<(String, Value)>,
    spots: Vec<Spot>,
    /// the nodes that occur, one of each shape
    nodes: Vec<Value>,
    /// where a node is put: in place of what is there, or into a list (before the end, at the end)
    seats: Vec<(usize, Path, u8)>,
    broken: Option<String>,
}

fn table() -> &'static Table {
    static T: OnceLock<Table> = OnceLock::new();
    T.get_or_init(|| {
        let mut t = Table { docs: vec![], spots: vec![], nodes: vec![], seats: vec![], broken: None };
        let mut shapes = std::collections::BTreeSet::new();
        for f in FORMS {
            match catch(|| esprit::script(f)) {
                Ok(Ok(tree)) => {
                    let doc = Enc::plain().script(&tree);
                    let mut all = vec![];
                    paths(&doc, &mut vec![], &mut all);
                    for p in all {
                        let x = at(&mut doc.clone(), &p).clone();
                        match x {
                            Value::Object(_) => {
                                if shapes.insert(shape(&x)) {
                                    t.nodes.push(x);
                                }
                                t.seats.push((t.docs.len(), p.clone(), 0));
                            }
                            Value::Null => t.seats.push((t.docs.len(), p.clone(), 0)),
                            Value::Array(_) => {
                                t.seats.push((t.docs.len(), p.clone(), 1));
                                t.seats.push((t.docs.len(), p.clone(), 2));
                            }
                            _ => (),
                        }
                        for op in 0..if ends_in_type(&p) { KNOWN_TAGS.len() + OTHER_TAGS.len() } else { OPS } {
                            t.spots.push((t.docs.len(), p.clone(), op));
                        }
                    }
                    t.docs.push((f.to_string(), doc));
                }
                Ok(Err(e)) => t.broken = Some(format!("{} is rejected: {:?}", f, e)),
                Err(p) => t.broken = Some(format!("{}: {}", f, p)),
            }
        }
        t
    })
}

/// The type of a node with the types of its fields.
fn shape(v: &Value) -> String {
    match *v {
        Value::Object(ref o) => o
            .iter()
            .map(|(k, x)| match *x {
                Value::Null => format!("{}-;", k),
                Value::Bool(b) => format!("{}{};", k, b),
                Value::String(ref s) if k == "type" || k == "kind" => format!("{}={};", k, s),
                Value::String(_) => format!("{}$;", k),
                Value::Array(ref a) => format!("{}[{}];", k, a.len().min(1)),
                Value::Object(_) => format!("{}{{}};", k),
                _ => format!("{}#;", k),
            })
            .collect(),
        _ => String::new(),
    }
}
/// Every node in every place of every form.
fn c28_nodes(src: &mut Src, case: &mut Case) {
    let t = table();
    if let Some(ref b) = t.broken {
        return case.fail(b.clone());
    }
    let i = src.below(t.seats.len() as u64) as usize;
    let (d, ref p, how) = t.seats[i];
    case.nontrivial = true;
    for node in &t.nodes {
        let mut doc = t.docs[d].1.clone();
        match (how, at(&mut doc, p)) {
            (0, place) => *place = node.clone(),
            (1, &mut Value::Array(ref mut a)) => {
                let n = a.len();
                a.insert(n - n.min(1), node.clone())
            }
            (_, &mut Value::Array(ref mut a)) => a.push(node.clone()),
            _ => unreachable!(),
        }
        case.subcases += 1;
        verdict(&doc, None, case);
        if case.failed() {
            case.set_input(format!("{}: {} {} {}", t.docs[d].0, show(p), [":=", "with a part in front of the last,", "with at the end"][how as usize], render(node)));
            return;
        }
    }
    case.set_input(format!("{}: {} {}", t.docs[d].0, show(p), how));
}

/// Every field of every form removed, and replaced by a value of every other kind.
fn c28_fields(src: &mut Src, case: &mut Case) {
    let t = table();
    if let Some(ref b) = t.broken {
        return case.fail(b.clone());
    }
    let i = src.below(t.spots.len() as u64) as usize;
    let (d, ref p, op) = t.spots[i];
    let mut doc = t.docs[d].1.clone();
    let mut unknown = None;
    let what;
    if ends_in_type(p) {
        let tag = if op < KNOWN_TAGS.len() {
            KNOWN_TAGS[op]
        } else {
            let u = OTHER_TAGS[op - KNOWN_TAGS.len()];
            unknown = Some(u);
            u
        };
        *at(&mut doc, p) = s(tag);
        what = format!(":= {:?}", tag);
    } else if op == 0 {
        remove(&mut doc, p);
        what = "removed".to_string();
    } else {
        let old = at(&mut doc, p).clone();
        let mut node = Obj::new();
        node.insert("type".to_string(), s("Identifier"));
        node.insert("name".to_string(), s("z"));
        let x = match op {
            1 => Value::Null,
            2 => Value::Bool(true),
            3 => Value::Bool(false),
            4 => Value::U64(7),
            5 => s("=="),
            6 => s("var"),
            7 => Value::Array(vec![]),
            8 => Value::Object(Obj::new()),
            9 => Value::Object(node),
            10 => Value::Array(vec![old]),
            _ => match old {
                Value::Array(mut a) => {
                    if !a.is_empty() {
                        let x = a[0].clone();
                        a.push(x);
                    } else {
                        a.push(Value::Null);
                    }
                    Value::Array(a)
                }
                _ => Value::F64(0.5),
            },
        };
        what = format!(":= {}", render(&x));
        *at(&mut doc, p) = x;
    }
    case.set_input(format!("{}: {} {}", t.docs[d].0, show(p), what));
    case.nontrivial = true;
    verdict(&doc, unknown, case);
}

/// The documents of the forms themselves.
fn c27_forms(src: &mut Src, case: &mut Case) {
    let f = FORMS[src.below(FORMS.len() as u64) as usize];
    case.set_input(f.to_string());
    case.nontrivial = true;
    let mut t = match esprit::script(f) {
        Ok(t) => t,
        Err(e) => return case.fail(format!("rejected: {:?}", e)),
    };
    t.untrack();
    let doc = Enc::plain().script(&t);
    agree(&doc, &mut t, case);
    for variant in 0..40 {
        let mut more = Src::random(variant);
        let doc = Enc::free(&mut more, true).script(&t);
        case.subcases += 1;
        if !case.failed() {
            agree(&doc, &mut t, case);
        }
    }
}

// ------------------------------------------------------------------ C35: what a refusal says

enum Want {
    Missing(Option<String>),
    /// what the expectation must mention, and the type found
    Mismatch(Option<&'static str>, Option<Ty>),
    Tag(String),
    Kind(String),
    /// a node that may belong there, but lacks what it needs: if its type is the complaint, then this type
    Perhaps(String),
    Word(String),
    Length(usize, usize),
    Target(String),
    Uninit(String),
    Init,
    /// a declaration kind that is one, but not here
    Decl(String),
}

fn ty_name(t: Ty) -> &'static str {
    match t {
        Ty::Null => "null",
        Ty::Boolean => "boolean",
        Ty::String => "string",
        Ty::Number => "number",
        Ty::Object => "object",
        Ty::Array => "array",
    }
}
fn tag_at(doc: &mut Value, p: &[Step]) -> String {
    match *at(doc, p) {
        Value::Object(ref o) => o.get("type").and_then(|t| t.as_str()).unwrap_or("").to_string(),
        _ => String::new(),
    }
}
/// The node a value belongs to, and the field it is in.
fn owner(doc: &mut Value, p: &[Step]) -> (String, String) {
    let mut n = p.len();
    while n > 0 {
        n -= 1;
        if let Step::Key(ref k) = p[n] {
            let k = k.clone();
            return (tag_at(doc, &p[..n]), k);
        }
    }
    (String::new(), String::new())
}
static EXPRS: &[&str] = &[
    "Identifier", "Literal", "BinaryExpression", "AssignmentExpression", "LogicalExpression", "UnaryExpression", "UpdateExpression", "MemberExpression", "CallExpression", "NewExpression",
    "ArrayExpression", "FunctionExpression", "SequenceExpression", "ObjectExpression", "ConditionalExpression", "ThisExpression", "MetaProperty",
];
static ONLY: &[&str] = &["Program", "Property", "VariableDeclarator", "SwitchCase", "CatchClause"];

/// May a node of this type stand where one of that type stands? None: perhaps.
fn stranger(old: &str, new: &str, owner: &(String, String), listed: bool) -> bool {
    let expr = |t: &str| EXPRS.contains(&t);
    let looped = ["ForStatement", "ForInStatement", "ForOfStatement"].contains(&&owner.0[..]) && (owner.1 == "init" || owner.1 == "left");
    if ONLY.contains(&old) || ONLY.contains(&new) {
        return true;
    }
    match (old, new) {
        ("RestElement", n) => n != "Identifier",
        (_, "RestElement") => owner.1 != "params",
        (_, "SpreadElement") => !(listed && (owner.1 == "arguments" || owner.1 == "elements")),
        ("SpreadElement", n) => !expr(n),
        (o, "VariableDeclaration") if expr(o) => !looped,
        ("VariableDeclaration", n) if looped => !expr(n),
        (o, n) => expr(o) != expr(n),
    }
}

fn this_node() -> Value {
    let mut o = Obj::new();
    o.insert("type".to_string(), s("ThisExpression"));
    Value::Object(o)
}

/// One defect, if there is one to make of this kind: what was done, and what is to be said of it.
fn defect(src: &mut Src, doc: &mut Value) -> Option<(String, Want)> {
    let mut all = vec![];
    paths(doc, &mut vec![], &mut all);
    let is_key = |p: &Path, k: &str| match p.last() {
        Some(&Step::Key(ref x)) => x == k,
        _ => false,
    };
    let name = |p: &Path| match p.last() {
        Some(&Step::Key(ref x)) => x.clone(),
        _ => String::new(),
    };
    let op = src.below(8);
    match op {
        0 => {
            let keys: Vec<&Path> = all.iter().filter(|p| !name(p).is_empty()).collect();
            let p = *src.pick(&keys);
            remove(doc, p);
            Some((format!("{} removed", show(p)), Want::Missing(Some(name(p)))))
        }
        1 | 2 => {
            let p = src.pick(&all);
            let old = at(doc, p).ty();
            let new = match src.below(6) {
                0 => Value::Null,
                1 => Value::Bool(src.bool()),
                2 => s(*src.pick(WORDS)),
                3 => src.pick(&[Value::U64(1), Value::I64(-1), Value::F64(0.5)]).clone(),
                4 => Value::Array(if src.bool() { vec![] } else { vec![at(doc, p).clone()] }),
                _ => Value::Object(Obj::new()),
            };
            let t = new.ty();
            if t == old && t != Ty::Object {
                return None;
            }
            let own = owner(doc, p);
            let flag = own.1 == "generator" || own.1 == "computed";
            let want = if own == ("VariableDeclarator".to_string(), "init".to_string()) && t == Ty::Null {
                let mut q = p[..p.len() - 1].to_vec();
                q.push(Step::Key("id".to_string()));
                q.push(Step::Key("name".to_string()));
                Want::Uninit(at(doc, &q).as_str().unwrap_or("").to_string())
            } else if flag {
                Want::Mismatch(Some("boolean"), Some(t))
            } else if own == ("Literal".to_string(), "value".to_string()) {
                match t {
                    Ty::Array => Want::Mismatch(None, Some(t)),
                    Ty::Object => Want::Missing(Some("regex".to_string())),
                    _ => Want::Mismatch(None, None),
                }
            } else if t == Ty::Object && (old == Ty::Object || old == Ty::Null) {
                Want::Missing(None)
            } else {
                Want::Mismatch(if old == Ty::Null { None } else { Some(ty_name(old)) }, Some(t))
            };
            let what = format!("{} := {}", show(p), render(&new));
            *at(doc, p) = new;
            Some((what, want))
        }
        3 | 4 => {
            let types: Vec<&Path> = all.iter().filter(|p| ends_in_type(p) && p.len() > 1).collect();
            if types.is_empty() {
                return None;
            }
            let p = *src.pick(&types);
            let node = &p[..p.len() - 1];
            let old = tag_at(doc, node);
            let (new, want) = if src.chance(1, 4) {
                let t = *src.pick(OTHER_TAGS);
                (t, Want::Tag(t.to_string()))
            } else {
                let t = *src.pick(KNOWN_TAGS);
                let own = owner(doc, node);
                let listed = match node.last() {
                    Some(&Step::Idx(_)) => true,
                    _ => false,
                };
                (t, if stranger(&old, t, &own, listed) { Want::Kind(t.to_string()) } else { Want::Perhaps(t.to_string()) })
            };
            *at(doc, p) = s(new);
            Some((format!("{} := {:?}", show(p), new), want))
        }
        5 => {
            let words: Vec<&Path> = all.iter().filter(|p| is_key(p, "operator") || is_key(p, "kind") || is_key(p, "name") && p.len() > 2).collect();
            let words: Vec<&Path> = words
                .into_iter()
                .filter(|p| {
                    let n = p.len();
                    let own = owner(doc, p);
                    match &name(p)[..] {
                        "kind" => own.0 == "VariableDeclaration",
                        "name" => tag_at(doc, &p[..n - 2]) == "MetaProperty",
                        _ => true,
                    }
                })
                .collect();
            if words.is_empty() {
                return None;
            }
            let p = *src.pick(&words);
            let own = owner(doc, p);
            let w = *src.pick(WORDS);
            *at(doc, p) = s(w);
            let want = match &name(p)[..] {
                "kind" if ["var", "let", "const"].contains(&w) => Want::Decl(w.to_string()),
                // an initialiser in the head is as wrong
                "kind" => match p.len() > 1 && is_key(&p[..p.len() - 1].to_vec(), "left") {
                    true => Want::Decl(w.to_string()),
                    false => Want::Word(w.to_string()),
                },
                "name" => {
                    let node = &p[..p.len() - 2];
                    let part = |doc: &mut Value, k: &str| {
                        let mut q = node.to_vec();
                        q.push(Step::Key(k.to_string()));
                        q.push(Step::Key("name".to_string()));
                        at(doc, &q).as_str().unwrap().to_string()
                    };
                    Want::Word(format!("{}.{}", part(doc, "meta"), part(doc, "property")))
                }
                _ if own.0 == "AssignmentExpression" && crate::estree_enc::ASSIGN.contains(&w) => Want::Target("left".to_string()),
                _ => Want::Word(w.to_string()),
            };
            Some((format!("{} := {:?}", show(p), w), want))
        }
        _ => {
            // what is wrong with a node of some kind
            let mut found: Vec<(Path, u32)> = vec![];
            for p in &all {
                let t = tag_at(doc, p);
                let own = owner(doc, p);
                match (&t[..], &own.0[..], &own.1[..]) {
                    ("VariableDeclaration", "ForInStatement", "left") | ("VariableDeclaration", "ForOfStatement", "left") => {
                        found.push((p.clone(), 0));
                        found.push((p.clone(), 1));
                    }
                    ("VariableDeclarator", _, _) => found.push((p.clone(), 2)),
                    (_, "AssignmentExpression", "left") | (_, "UpdateExpression", "argument") => found.push((p.clone(), 3)),
                    (t, "ForInStatement", "left") | (t, "ForOfStatement", "left") if !t.is_empty() => found.push((p.clone(), 3)),
                    ("Property", _, _) => found.push((p.clone(), 4)),
                    _ => (),
                }
            }
            if found.is_empty() {
                return None;
            }
            let (p, k) = src.pick(&found).clone();
            let own = owner(doc, &p);
            let below = |ks: &[&str]| -> Path { p.iter().cloned().chain(ks.iter().map(|k| Step::Key(k.to_string()))).collect() };
            match k {
                0 => {
                    let n = *src.pick(&[0, 2, 3]);
                    if let &mut Value::Array(ref mut a) = at(doc, &below(&["declarations"])) {
                        let d = a[0].clone();
                        *a = vec![d; n];
                    }
                    Some((format!("{} declarators in {}", n, show(&p)), Want::Length(1, n)))
                }
                1 => {
                    let mut q = below(&["declarations"]);
                    q.push(Step::Idx(0));
                    q.push(Step::Key("init".to_string()));
                    *at(doc, &q) = this_node();
                    Some((format!("{} := this", show(&q)), Want::Init))
                }
                2 => {
                    let mut id = p.clone();
                    id.push(Step::Key("id".to_string()));
                    id.push(Step::Key("name".to_string()));
                    let name = at(doc, &id).as_str().unwrap_or("").to_string();
                    *at(doc, &below(&["init"])) = Value::Null;
                    Some((format!("{}.init := null", show(&p)), Want::Uninit(name)))
                }
                3 => {
                    *at(doc, &p) = if src.bool() { this_node() } else { src.pick(&[r#"{"type":"CallExpression","callee":{"type":"Identifier","name":"a"},"arguments":[]}"#, r#"{"type":"Literal","value":1}"#, r#"{"type":"ArrayExpression","elements":[null,{"type":"Literal","value":null}]}"#]).parse().unwrap() };
                    Some((format!("{} := {}", show(&p), render(at(doc, &p))), Want::Target(own.1.clone())))
                }
                _ => {
                    let kind = at(doc, &below(&["kind"])).as_str().unwrap_or("").to_string();
                    let right = match &kind[..] {
                        "get" => 0,
                        "set" => 1,
                        _ => return None,
                    };
                    let n = *src.pick(&[0, 1, 2, 3]);
                    if let &mut Value::Array(ref mut a) = at(doc, &below(&["value", "params"])) {
                        *a = vec![r#"{"type":"Identifier","name":"v"}"#.parse().unwrap(); n];
                    }
                    Some((format!("{} parameters of the accessor {}", n, show(&p)), Want::Length(right, n)))
                }
            }
        }
    }
}

fn c35_defects(src: &mut Src, case: &mut Case) {
    use unjson::error::Error as Json;
    let size = *src.pick(&[4, 16, 16, 40]);
    let (_, t) = tree(src, size);
    let mut doc = Enc::free(src, false).script(&t);
    let (what, want) = match defect(src, &mut doc) {
        Some(d) => d,
        None => return case.set_input("(nothing of the kind)"),
    };
    case.set_input(format!("{}: {}", what, render(&doc)));
    let why = match estree_enc::normal(&doc) {
        // still a document
        Ok(_) => return,
        Err(why) => why,
    };
    case.nontrivial = true;
    let e = match decode(&doc) {
        Err(p) => return case.fail(p),
        Ok(Ok(_)) => return case.fail(format!("accepted, though {}", why)),
        Ok(Err(e)) => e,
    };
    let text = e.to_string();
    let mut says: Vec<String> = vec![];
    let (fits, class) = match (&want, &e) {
        (&Want::Missing(ref f), &Error::Json(Json::MissingField(n))) => {
            says.push(n.to_string());
            (f.as_ref().map_or(true, |f| f == n), "missing field")
        }
        (&Want::Mismatch(x, t), &Error::Json(Json::TypeMismatch(expected, found))) => {
            says.push(expected.to_string());
            says.push(ty_name(found).to_string());
            (x.map_or(true, |x| expected.contains(x)) && t.map_or(true, |t| t == found), "wrong type")
        }
        (&Want::Tag(ref t), &Error::InvalidTypeTag(ref u)) => {
            says.push(u.clone());
            (t == u, "unknown node type")
        }
        (&Want::Kind(ref t), &Error::NodeTypeMismatch(x, ref u)) => {
            says.push(x.to_string());
            says.push(t.clone());
            (u.to_string() == *t, "misplaced node type")
        }
        (&Want::Perhaps(ref t), &Error::NodeTypeMismatch(_, ref u)) => (u.to_string() == *t, "misplaced node type"),
        (&Want::Perhaps(_), &Error::InvalidTypeTag(_)) => (false, "other contents for its type"),
        (&Want::Perhaps(_), _) => (true, "other contents for its type"),
        (&Want::Word(ref w), &Error::Json(Json::IllegalString(x, ref u))) | (&Want::Decl(ref w), &Error::Json(Json::IllegalString(x, ref u))) => {
            says.push(x.to_string());
            says.push(format!("{:?}", w));
            (w == u, "unknown word")
        }
        (&Want::Decl(_), &Error::UnexpectedInitializer(_)) | (&Want::Decl(_), &Error::UninitializedPattern(_)) => (true, "initialiser for the kind"),
        (&Want::Length(r, n), &Error::Json(Json::WrongArrayLength(x, y))) => {
            says.push(r.to_string());
            says.push(n.to_string());
            ((r, n) == (x, y), "wrong length")
        }
        (&Want::Target(ref f), &Error::InvalidLHS(g)) => (f == g, "target"),
        (&Want::Init, &Error::UnexpectedInitializer(ref x)) => (*x == Expr::This(None), "unexpected initialiser"),
        (&Want::Uninit(ref n), &Error::UninitializedPattern(easter::patt::Patt::Simple(ref id))) => (crate::tok::name_text(&id.name) == *n, "missing initialiser"),
        _ => (false, "other"),
    };
    case.class(class);
    if !fits {
        return case.fail(format!("the error is {:?}", text));
    }
    if let Some(w) = says.iter().find(|w| !text.contains(&w[..])) {
        return case.fail(format!("the text {:?} does not say {:?}", text, w));
    }
    if text.is_empty() {
        return case.fail("the error has no text");
    }
    match catch(|| serde_json::from_value::<ESTreeScript>(doc.clone()).map(|_| ()).map_err(|e| e.to_string())) {
        Err(p) => case.fail(p),
        Ok(Ok(())) => case.fail("accepted by the deserialiser"),
        Ok(Err(m)) if !m.contains(&text) => case.fail(format!("the deserialiser reports {:?} instead of {:?}", m, text)),
        _ => (),
    }
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C27",
            rule: "documents of more than six nodes, and all the documents of the forms list",
            subs: vec![
                enumerate("forms", c27_forms, FORMS.len() as u64),
                sub("trees", c27_trees, 120_000, 3_000_000),
                sub("sources", c27_sources, 40_000, 1_000_000),
                sub("documents of other parsers", c27_documents, 20_000, 500_000),
            ],
            assumptions: vec![
                "the encoder of the harness follows the ESTree specification (ES2015) for the supported language",
                "destructuring is encoded as the expressions it is written as; the ArrayPattern and ObjectPattern nodes are unsupported (C28)",
                "bodies do not start with a string in parentheses, which ESTree does not tell from a directive",
                "acorn and esprima write ESTree documents",
            ],
        },
        Check {
            id: "C28",
            rule: "documents with at least one corruption, pattern documents with a pattern node, arbitrary documents with a statement",
            subs: vec![
                enumerate_all("every field of every form", c28_fields, || table().spots.len().max(1) as u64),
                enumerate_all("every node in every place", c28_nodes, || table().seats.len().max(1) as u64),
                sub("corrupted documents", c28_corrupted, 150_000, 4_000_000),
                sub("pattern nodes", c28_patterns, 20_000, 400_000),
                sub("arbitrary documents", c28_arbitrary, 80_000, 2_000_000),
            ],
            assumptions: vec![
                "well-formedness is structural: whether names are words of the language, labels exist or lists that may not be empty are empty is not part of it",
                "fields that ESTree has but the supported language cannot vary (such as prefix) are unknown fields",
            ],
        },
        Check {
            id: "C35",
            rule: "documents with exactly one defect that makes them malformed",
            subs: vec![sub("defects", c35_defects, 300_000, 10_000_000)],
            assumptions: vec!["a node that may stand at its place but lacks what its type needs may be reported for any of that"],
        },
    ]
}
