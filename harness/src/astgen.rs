//! Generator of syntax trees of the supported language, without locations.
use crate::engine::Src;
use crate::lexdrv;
use crate::lexgen;
use crate::reflex;
use crate::tok::{ATOMS, RESERVED};
use easter::decl::{ConstDtor, Decl, Dtor, Export, Import};
use easter::expr::{Expr, ExprListItem};
use easter::fun::{Fun, Params};
use easter::id::Id;
use easter::obj::{DotKey, Prop, PropKey, PropVal};
use easter::patt::{AssignTarget, CompoundPatt, Patt, PropPatt, RestPatt};
use easter::punc::{Assop, AssopTag, Binop, BinopTag, Logop, LogopTag, Op, Semi, Unop, UnopTag};
use easter::stmt::{Block, Body, Case, Catch, Dir, ForHead, ForInHead, ForOfHead, ModItem, Module, Script, Stmt, StmtListItem};
use joker::token::{CharCase, Exp, NumberLiteral, NumberSource, Radix, RegExpLiteral, Sign, StringLiteral, TokenData};
use joker::word::Name;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Goal {
    Script,
    Strict,
    Module,
}

#[derive(Clone)]
pub struct Opts {
    pub goal: Goal,
    /// stay inside what an independent parser accepts under early errors esprit does not claim
    pub portable: bool,
    /// rough number of nodes
    pub size: i64,
    /// literals of every form, or a few plain ones
    pub plain: bool,
    /// also what the tree types can hold but the parser does not produce: patterns in bindings
    pub wild: bool,
}

impl Opts {
    pub fn new(goal: Goal, size: i64) -> Opts {
        Opts { goal, portable: false, size, plain: false, wild: false }
    }
}

pub static UNOPS: &[UnopTag] =
    &[UnopTag::Minus, UnopTag::Plus, UnopTag::Not, UnopTag::BitNot, UnopTag::Typeof, UnopTag::Void, UnopTag::Delete];
pub static BINOPS: &[BinopTag] = &[
    BinopTag::Plus, BinopTag::Minus, BinopTag::Times, BinopTag::Div, BinopTag::Mod, BinopTag::Lt, BinopTag::LEq, BinopTag::Gt, BinopTag::GEq,
    BinopTag::Eq, BinopTag::NEq, BinopTag::StrictEq, BinopTag::StrictNEq, BinopTag::LShift, BinopTag::RShift, BinopTag::URShift, BinopTag::BitOr,
    BinopTag::BitXor, BinopTag::BitAnd, BinopTag::In, BinopTag::Instanceof,
];
pub static LOGOPS: &[LogopTag] = &[LogopTag::And, LogopTag::Or];
pub static ASSOPS: &[AssopTag] = &[
    AssopTag::PlusEq, AssopTag::MinusEq, AssopTag::TimesEq, AssopTag::DivEq, AssopTag::ModEq, AssopTag::LShiftEq, AssopTag::RShiftEq,
    AssopTag::URShiftEq, AssopTag::BitOrEq, AssopTag::BitXorEq, AssopTag::BitAndEq,
];

pub fn op<T>(tag: T) -> Op<T> {
    Op { location: None, tag }
}

pub fn id(name: &str) -> Id {
    Id { location: None, name: Name::from(name.to_string()) }
}

/// What the reference says of a text that is a single literal.
fn described(text: &str) -> Option<String> {
    let cs: Vec<char> = text.chars().collect();
    let (toks, err) = reflex::lex_all(&cs, |_| false);
    if err.is_none() && toks.len() == 2 && toks[0].start == 0 && toks[0].end == cs.len() {
        return Some(toks[0].dump.clone());
    }
    None
}
fn letter(c: char) -> CharCase {
    if c.is_ascii_uppercase() { CharCase::UpperCase } else { CharCase::LowerCase }
}
/// The literals texts denote: built from the reference, so that nothing here rests on the lexer.
pub fn num_lit(text: &str) -> NumberLiteral {
    let d = described(text).unwrap_or_else(|| panic!("not a literal: {}", text));
    let w: Vec<&str> = d.split(' ').collect();
    assert!(w[0] == "num" && w[2] == text, "not a number: {}", text);
    let value = f64::from_bits(u64::from_str_radix(w[3], 16).unwrap());
    let exp = |e: &str| {
        let sign = match e[1..].chars().next() {
            Some('+') => Some(Sign::Plus),
            Some('-') => Some(Sign::Minus),
            _ => None,
        };
        Exp { e: letter(e.chars().next().unwrap()), value: e[1 + sign.is_some() as usize..].to_string(), sign }
    };
    let e = text.find(|c| c == 'e' || c == 'E').unwrap_or(text.len());
    let source = match w[1] {
        "int" => NumberSource::DecimalInt(text.to_string(), None),
        "int-exp" => NumberSource::DecimalInt(text[..e].to_string(), Some(exp(&text[e..]))),
        "legacy-oct" => NumberSource::RadixInt(Radix::Oct(None), text.to_string()),
        "float" | "float-exp" => {
            let e = if w[1] == "float" { text.len() } else { e };
            let dot = text.find('.').unwrap();
            let part = |s: &str| if s.is_empty() { None } else { Some(s.to_string()) };
            NumberSource::Float(part(&text[..dot]), part(&text[dot + 1..e]), if e < text.len() { Some(exp(&text[e..])) } else { None })
        }
        k => {
            let c = letter(text.chars().nth(1).unwrap());
            let radix = match k {
                "bin" => Radix::Bin(c),
                "oct" => Radix::Oct(Some(c)),
                _ => Radix::Hex(c),
            };
            NumberSource::RadixInt(radix, text[2..].to_string())
        }
    };
    NumberLiteral { source: Some(source), value }
}
pub fn str_lit(text: &str) -> StringLiteral {
    let d = described(text).unwrap_or_else(|| panic!("not a literal: {}", text));
    let head = format!("str {:?} value ", Some(text));
    assert!(d.starts_with(&head), "not a string: {}", text);
    let quoted = &d[head.len()..];
    let mut value = String::new();
    if quoted == "*" {
        // half a surrogate pair: no value is prescribed, so the lexer's own will do
        let cs: Vec<char> = text.chars().collect();
        if let Some(TokenData::String(s)) = lexdrv::lex(&cs, |_| false).toks.get(0).map(|t| t.value.clone()) {
            value = s.value;
        }
    } else {
        // as {:?} writes it
        let mut cs = quoted[1..quoted.len() - 1].chars();
        while let Some(c) = cs.next() {
            value.push(match c {
                '\\' => match cs.next().unwrap() {
                    'n' => '\n',
                    'r' => '\r',
                    't' => '\t',
                    '0' => '\0',
                    'u' => {
                        let hex: String = cs.by_ref().skip(1).take_while(|&c| c != '}').collect();
                        std::char::from_u32(u32::from_str_radix(&hex, 16).unwrap()).unwrap()
                    }
                    c => c,
                },
                c => c,
            });
        }
    }
    StringLiteral { source: Some(text.to_string()), value }
}
pub fn re_lit(text: &str) -> RegExpLiteral {
    let d = described(text).unwrap_or_else(|| panic!("not a literal: {}", text));
    let i = text.rfind('/').unwrap();
    let (pattern, flags) = (text[1..i].to_string(), text[i + 1..].to_string());
    assert!(d == format!("re {:?} flags {:?}", pattern, flags), "not a regular expression: {}", text);
    RegExpLiteral { pattern, flags: flags.chars().collect() }
}

static COMMON: &[&str] = &["a", "b", "c", "x", "y", "f", "foo", "$", "_", "\u{3c0}", "\u{10400}", "in1", "news", "ifx"];
/// Names that mean something to somebody.
static FAMOUS: &[&str] = &["length", "prototype", "constructor", "undefined", "NaN", "Infinity", "toString", "valueOf", "hasOwnProperty", "name", "value", "type", "kind", "then", "require", "exports", "module", "meta", "as", "Object", "self", "asm", "test", "__proto_", "null_"];
static SLOPPY_WORDS: &[&str] = &["implements", "interface", "package", "private", "protected", "public", "static", "yield", "let"];
static CONTEXTUAL: &[&str] = &["of", "get", "set", "from", "target", "async"];
static PLAIN_NUMS: &[&str] = &["0", "1", "42", "1.5", ".5", "5.", "1e3", "0x1F", "0b101", "0o17", "1e-7", "9007199254740993"];
static PLAIN_STRS: &[&str] = &["''", "\"\"", "'a'", "\"b\"", "'use strict'", "'\\n'", "\"\\x41\"", "'\\u0042'", "'\\u{1F600}'", "'it\\'s'", "\"'\"", "'a\\\nb'", "'/'"];
static PLAIN_RES: &[&str] = &["/a/", "/[/]/g", "/a+b*/i", "/\\//m", "/=/", "/(?:x)|y/gi", "/\\d{2,3}/y", "/[^\\]]/"];

pub struct Gen<'s> {
    pub src: &'s mut Src,
    pub o: Opts,
    pub fuel: i64,
    pub strict: bool,
    pub function: bool,
    pub generator: bool,
    pub iteration: bool,
    pub switch: bool,
    pub labels: Vec<(String, bool)>,
    pub fresh: u32,
    pub depth: u32,
}

impl<'s> Gen<'s> {
    pub fn new(src: &'s mut Src, o: Opts) -> Gen<'s> {
        let fuel = o.size;
        let strict = o.goal != Goal::Script;
        Gen { src, o, fuel, strict, function: false, generator: false, iteration: false, switch: false, labels: vec![], fresh: 0, depth: 0 }
    }

    fn low(&mut self) -> bool {
        self.fuel <= 0 || self.depth > 60
    }

    // ------------------------------------------------------------ names

    /// The text of a name that may be used as an identifier here.
    fn name(&mut self) -> String {
        match self.src.weighted(&[12, 3, 2, 1]) {
            0 if self.src.chance(1, 8) => self.src.pick(FAMOUS).to_string(),
            0 => self.src.pick(COMMON).to_string(),
            1 => self.src.pick(CONTEXTUAL).to_string(),
            2 if !self.strict => {
                let w = *self.src.pick(SLOPPY_WORDS);
                if w == "yield" && self.generator { "a".to_string() } else { w.to_string() }
            }
            3 if !self.o.plain => {
                let w = lexgen::word_text(self.src);
                if RESERVED.iter().any(|r| r.0 == w) || ATOMS.iter().any(|r| r.0 == w) { "w".to_string() } else { w }
            }
            _ if self.o.goal != Goal::Module && self.src.chance(1, 6) => "await".to_string(),
            _ => "arguments".to_string(),
        }
    }
    /// A name that may be bound or assigned here.
    fn target_name(&mut self) -> String {
        let n = self.name();
        if self.strict && (n == "arguments" || n == "eval") { "e".to_string() } else { n }
    }
    /// A name for a binding: unlike any other in the program, so that no redeclaration arises.
    fn binding(&mut self) -> Id {
        self.fresh += 1;
        let n = self.fresh;
        if !self.o.portable && self.src.chance(1, 8) {
            let n = self.target_name();
            return id(if n == "let" { "l" } else { &n });
        }
        id(&format!("{}{}", *self.src.pick(&["v", "of", "let", "\u{e9}", "q_"]), n))
    }
    /// Variables may be declared again, but not against lexical ones: those are all fresh.
    fn var_binding(&mut self) -> Id {
        let n = self.target_name();
        id(if n == "let" { "l" } else { &n })
    }
    fn prop_name(&mut self) -> String {
        match self.src.weighted(&[4, 2, 2]) {
            0 if self.src.chance(1, 4) => self.src.pick(FAMOUS).to_string(),
            0 => self.src.pick(COMMON).to_string(),
            1 => self.src.pick(RESERVED).0.to_string(),
            _ => self.src.pick(ATOMS).0.to_string(),
        }
    }

    // ------------------------------------------------------------ literals

    fn number(&mut self) -> NumberLiteral {
        if self.o.plain {
            return num_lit(*self.src.pick(PLAIN_NUMS));
        }
        let t = lexgen::number(self.src).text;
        let octal = t.starts_with('0') && t.chars().nth(1).map_or(false, |c| c.is_digit(10));
        if self.o.portable && octal { num_lit("0") } else { num_lit(&t) }
    }
    fn string(&mut self) -> StringLiteral {
        if self.o.plain || self.o.portable {
            return str_lit(*self.src.pick(PLAIN_STRS));
        }
        let mut forms = vec![];
        let t = lexgen::string(self.src, &mut forms).text;
        str_lit(&t)
    }
    fn regexp(&mut self) -> RegExpLiteral {
        if self.o.plain || self.o.portable {
            return re_lit(*self.src.pick(PLAIN_RES));
        }
        let t = lexgen::regexp(self.src).text;
        re_lit(&t)
    }

    // ------------------------------------------------------------ expressions

    fn leaf(&mut self) -> Expr {
        match self.src.weighted(&[10, 4, 3, 2, 1, 1, 1, 1, 1]) {
            0 => Expr::Id({ let n = self.name(); id(&n) }),
            1 => Expr::Number(None, self.number()),
            2 => Expr::String(None, self.string()),
            3 => Expr::This(None),
            4 => Expr::True(None),
            5 => Expr::False(None),
            6 => Expr::Null(None),
            7 => Expr::RegExp(None, self.regexp()),
            _ if self.function => Expr::NewTarget(None),
            _ => Expr::Arr(None, vec![]),
        }
    }

    pub fn expr(&mut self) -> Expr {
        self.fuel -= 1;
        if self.low() {
            return self.leaf();
        }
        self.depth += 1;
        let e = self.expr_inner();
        self.depth -= 1;
        e
    }
    fn bexpr(&mut self) -> Box<Expr> {
        Box::new(self.expr())
    }

    fn expr_inner(&mut self) -> Expr {
        match self.src.weighted(&[8, 6, 3, 3, 2, 2, 4, 2, 3, 5, 3, 2, 2, 2, 2, 1]) {
            0 => self.leaf(),
            1 => {
                let t = self.src.pick(BINOPS).clone();
                Expr::Binop(None, op(t), self.bexpr(), self.bexpr())
            }
            2 => {
                let t = self.src.pick(LOGOPS).clone();
                Expr::Logop(None, op(t), self.bexpr(), self.bexpr())
            }
            3 => {
                let t = self.src.pick(UNOPS).clone();
                let a = self.expr();
                let t = if t == UnopTag::Delete && self.strict && matches_id(&a) { UnopTag::Void } else { t };
                Expr::Unop(None, op(t), Box::new(a))
            }
            4 => {
                let t = Box::new(self.target());
                match self.src.below(4) {
                    0 => Expr::PreInc(None, t),
                    1 => Expr::PostInc(None, t),
                    2 => Expr::PreDec(None, t),
                    _ => Expr::PostDec(None, t),
                }
            }
            5 => {
                let t = self.target();
                let o = self.src.pick(ASSOPS).clone();
                Expr::BinAssign(None, op(o), t, self.bexpr())
            }
            6 => {
                let p = self.assign_patt(3);
                Expr::Assign(None, p, self.bexpr())
            }
            7 => Expr::Cond(None, self.bexpr(), self.bexpr(), self.bexpr()),
            8 => {
                let f = self.bexpr();
                Expr::Call(None, f, self.args())
            }
            9 => {
                let o = self.bexpr();
                Expr::Dot(None, o, DotKey { location: None, value: self.prop_name() })
            }
            10 => Expr::Brack(None, self.bexpr(), self.bexpr()),
            11 => {
                let f = self.bexpr();
                let a = if self.src.bool() { Some(self.args()) } else { None };
                Expr::New(None, f, a)
            }
            12 => Expr::Arr(None, self.elements()),
            13 => Expr::Obj(None, self.props()),
            14 => Expr::Fun(self.fun_expr()),
            _ => {
                let n = 2 + self.src.count(1, 3);
                Expr::Seq(None, (0..n).map(|_| self.no_seq()).collect())
            }
        }
    }
    /// A sequence directly inside a sequence is fine too, but only with parentheses.
    fn no_seq(&mut self) -> Expr {
        self.expr()
    }

    fn fun_expr(&mut self) -> Fun<Option<Id>> {
        let generator = self.src.chance(1, 4);
        // the name of an expression belongs to the function itself, whatever surrounds it
        let own = ["f", "g", "rec", if self.strict || generator || self.o.portable { "h" } else { "yield" }];
        let name = if self.src.bool() { Some(id(*self.src.pick(&own))) } else { None };
        let (params, body) = self.function_rest(generator);
        Fun { location: None, id: name, params, body, generator }
    }

    fn args(&mut self) -> Vec<ExprListItem> {
        let n = self.src.count(1, 4);
        (0..n).map(|_| self.list_item()).collect()
    }
    fn list_item(&mut self) -> ExprListItem {
        if self.src.chance(1, 6) {
            ExprListItem::Spread(None, self.expr())
        } else {
            ExprListItem::Expr(self.expr())
        }
    }
    fn elements(&mut self) -> Vec<Option<ExprListItem>> {
        let n = self.src.count(2, 6);
        (0..n).map(|_| if self.src.chance(1, 6) { None } else { Some(self.list_item()) }).collect()
    }

    pub fn prop_key(&mut self) -> PropKey {
        match self.src.weighted(&[5, 2, 2]) {
            0 => PropKey::Id(None, self.prop_name()),
            1 => PropKey::String(None, self.string()),
            _ => PropKey::Number(None, self.number()),
        }
    }
    fn props(&mut self) -> Vec<Prop> {
        let n = self.src.count(2, 5);
        (0..n).map(|_| self.prop()).collect()
    }
    fn prop(&mut self) -> Prop {
        self.fuel -= 1;
        let k = if self.low() { 1 } else { self.src.weighted(&[5, 3, 1, 1, 2]) };
        match k {
            0 => {
                let key = self.prop_key();
                Prop::Regular(None, key, PropVal::Init(self.expr()))
            }
            1 => {
                let n = self.name();
                Prop::Shorthand(id(if n == "let" && self.o.portable { "l" } else { &n }))
            }
            2 => {
                let key = self.prop_key();
                let saved = self.enter(false);
                let body = self.body(false);
                self.leave(saved);
                Prop::Regular(None, key, PropVal::Get(None, body))
            }
            3 => {
                let key = self.prop_key();
                let p = self.bind_patt();
                let saved = self.enter(false);
                let body = self.body(false);
                self.leave(saved);
                Prop::Regular(None, key, PropVal::Set(None, p, body))
            }
            _ => {
                let key = self.prop_key();
                let generator = self.src.chance(1, 3);
                let (params, body) = self.function_rest(generator);
                Prop::Method(Fun { location: None, id: key, params, body, generator })
            }
        }
    }

    // ------------------------------------------------------------ targets

    pub fn target(&mut self) -> AssignTarget {
        self.fuel -= 1;
        match if self.low() { 0 } else { self.src.weighted(&[4, 2, 2]) } {
            0 => AssignTarget::Id({ let n = self.target_name(); id(&n) }),
            1 => {
                let o = self.bexpr();
                AssignTarget::Dot(None, o, DotKey { location: None, value: self.prop_name() })
            }
            _ => AssignTarget::Brack(None, self.bexpr(), self.bexpr()),
        }
    }
    pub fn assign_patt(&mut self, depth: u32) -> Patt<AssignTarget> {
        if depth == 0 || self.low() || self.src.chance(3, 5) {
            return Patt::Simple(self.target());
        }
        if self.src.bool() {
            let n = self.src.count(2, 4);
            let ps = (0..n).map(|_| if self.src.chance(1, 5) { None } else { Some(self.assign_patt(depth - 1)) }).collect();
            let rest = if self.src.chance(1, 3) {
                Some(Box::new(RestPatt { location: None, patt: self.assign_patt(depth - 1) }))
            } else {
                None
            };
            Patt::Compound(CompoundPatt::Arr(None, ps, rest))
        } else {
            let n = self.src.count(2, 4);
            let ps = (0..n)
                .map(|_| {
                    if self.src.bool() {
                        let n = self.target_name();
                        PropPatt::Shorthand(id(if n == "let" && self.o.portable { "l" } else { &n }))
                    } else {
                        let key = self.prop_key();
                        PropPatt::Regular(None, key, self.assign_patt(depth - 1))
                    }
                })
                .collect();
            Patt::Compound(CompoundPatt::Obj(None, ps))
        }
    }

    fn bind_patt(&mut self) -> Patt<Id> {
        if self.o.wild && self.src.chance(1, 3) { self.wild_patt(2) } else { Patt::Simple(self.binding()) }
    }
    fn var_patt(&mut self) -> Patt<Id> {
        if self.o.wild && self.src.chance(1, 3) { self.wild_patt(2) } else { Patt::Simple(self.var_binding()) }
    }
    /// A pattern of bindings, which the tree types know and the parser does not.
    pub fn wild_patt(&mut self, depth: u32) -> Patt<Id> {
        self.fuel -= 1;
        if depth == 0 || self.low() {
            return Patt::Simple(self.binding());
        }
        match self.src.below(3) {
            0 => Patt::Simple(self.binding()),
            1 => {
                let n = self.src.count(2, 4);
                let ps = (0..n).map(|_| if self.src.chance(1, 5) { None } else { Some(self.wild_patt(depth - 1)) }).collect();
                let rest = if self.src.chance(1, 3) {
                    Some(Box::new(RestPatt { location: None, patt: self.wild_patt(depth - 1) }))
                } else {
                    None
                };
                Patt::Compound(CompoundPatt::Arr(None, ps, rest))
            }
            _ => {
                let n = self.src.count(2, 4);
                let ps = (0..n)
                    .map(|_| {
                        if self.src.bool() {
                            PropPatt::Shorthand(self.binding())
                        } else {
                            let key = self.prop_key();
                            PropPatt::Regular(None, key, self.wild_patt(depth - 1))
                        }
                    })
                    .collect();
                Patt::Compound(CompoundPatt::Obj(None, ps))
            }
        }
    }
    /// A module with imports and exports, which the tree types know and the parser does not.
    pub fn wild_module(&mut self) -> Module {
        let b = to_module(self.program());
        let mut items = vec![];
        for i in b.items {
            if self.src.chance(1, 4) {
                items.push(ModItem::Import(Import::ForEffect(None, self.string())));
            }
            items.push(match i {
                ModItem::StmtListItem(StmtListItem::Decl(d)) if self.src.bool() => ModItem::Export(Export::Decl(d)),
                ModItem::StmtListItem(StmtListItem::Stmt(Stmt::Var(_, ds, s))) if self.src.bool() => ModItem::Export(Export::Var(None, ds, s)),
                i => i,
            });
        }
        Body { location: None, dirs: b.dirs, items }
    }

    // ------------------------------------------------------------ functions and bodies

    fn enter(&mut self, generator: bool) -> (bool, bool, bool, bool, bool, Vec<(String, bool)>) {
        let saved = (self.strict, self.function, self.generator, self.iteration, self.switch, std::mem::replace(&mut self.labels, vec![]));
        self.function = true;
        self.generator = generator;
        self.iteration = false;
        self.switch = false;
        saved
    }
    fn leave(&mut self, s: (bool, bool, bool, bool, bool, Vec<(String, bool)>)) {
        self.strict = s.0;
        self.function = s.1;
        self.generator = s.2;
        self.iteration = s.3;
        self.switch = s.4;
        self.labels = s.5;
    }
    fn function_rest(&mut self, generator: bool) -> (Params, Script) {
        self.fuel -= 1;
        self.depth += 1;
        let n = self.src.count(1, 3);
        let outer = std::mem::replace(&mut self.generator, generator);
        let list: Vec<Patt<Id>> = (0..n).map(|_| self.bind_patt()).collect();
        let rest = if self.src.chance(1, 5) { Some(RestPatt { location: None, patt: self.bind_patt() }) } else { None };
        self.generator = outer;
        let saved = self.enter(generator);
        let body = self.body(rest.is_some());
        self.leave(saved);
        self.depth -= 1;
        (Params { location: None, list, rest }, body)
    }

    fn directive(&mut self, no_strict: bool) -> Dir {
        let text = match self.src.weighted(&[3, 3, 2]) {
            0 if !no_strict => self.src.pick(&["'use strict'", "\"use strict\""]).to_string(),
            1 => self.src.pick(&["'use\\x20strict'", "\"Use strict\"", "'use strict '", "'use\\\n strict'", "''", "'use asm'", "'use  strict'", "\"'use strict'\"", "'\"use strict\"'", "' use strict'", "'use strict\\\n'", "'use stric\\u{74}'", "'use_strict'"]).to_string(),
            _ => self.string().source.unwrap_or_else(|| "''".to_string()),
        };
        let text = if no_strict && &text[1..text.len() - 1] == "use strict" { "'x'".to_string() } else { text };
        // the experimental module pragma is outside the claims
        let string = str_lit(if &text[1..text.len() - 1] == "use module" { "'x'" } else { &text });
        if &text[1..text.len() - 1] == "use strict" {
            self.strict = true;
        }
        Dir { location: None, string, semi: Semi::Explicit(None) }
    }

    /// Sets the strictness a "use strict" directive brings; the caller restores it.
    fn body(&mut self, no_strict: bool) -> Script {
        let nd = if self.src.chance(1, 4) { 1 + self.src.count(1, 3) } else { 0 };
        let dirs = (0..nd).map(|_| self.directive(no_strict)).collect();
        let items = self.items(3, 8);
        Body { location: None, dirs, items }
    }

    fn items(&mut self, mean: u64, cap: usize) -> Vec<StmtListItem> {
        let n = if self.low() { 0 } else { self.src.count(mean, cap) };
        (0..n).map(|_| self.item()).collect()
    }

    pub fn item(&mut self) -> StmtListItem {
        self.fuel -= 1;
        match self.src.weighted(&[8, 1, 1, 1]) {
            0 => StmtListItem::Stmt(self.stmt(false)),
            1 => {
                let name = self.binding();
                let generator = self.src.chance(1, 4);
                let (params, body) = self.function_rest(generator);
                StmtListItem::Decl(Decl::Fun(Fun { location: None, id: name, params, body, generator }))
            }
            2 => {
                let d = self.dtors(true);
                StmtListItem::Decl(Decl::Let(None, d, Semi::Explicit(None)))
            }
            _ => {
                let d = self.const_dtors();
                StmtListItem::Decl(Decl::Const(None, d, Semi::Explicit(None)))
            }
        }
    }

    fn dtors(&mut self, lexical: bool) -> Vec<Dtor> {
        let n = 1 + self.src.count(1, 3);
        (0..n)
            .map(|_| {
                let b = if lexical { self.binding() } else { self.var_binding() };
                if self.o.wild && self.src.chance(1, 4) {
                    if let Patt::Compound(p) = self.wild_patt(2) {
                        return Dtor::Compound(None, p, self.expr());
                    }
                }
                let init = if self.src.bool() { Some(self.expr()) } else { None };
                Dtor::Simple(None, b, init)
            })
            .collect()
    }
    fn const_dtors(&mut self) -> Vec<ConstDtor> {
        let n = 1 + self.src.count(1, 3);
        (0..n)
            .map(|_| {
                let b = self.bind_patt();
                ConstDtor { location: None, patt: b, value: self.expr() }
            })
            .collect()
    }
    fn block(&mut self) -> Block {
        self.fuel -= 1;
        self.depth += 1;
        let items = self.items(2, 6);
        self.depth -= 1;
        Block { location: None, items }
    }

    // ------------------------------------------------------------ statements

    /// `closed`: an if without else may not end the statement, since an else follows.
    pub fn stmt(&mut self, closed: bool) -> Stmt {
        self.fuel -= 1;
        self.depth += 1;
        let s = self.stmt_inner(closed);
        self.depth -= 1;
        s
    }
    fn semi() -> Semi {
        Semi::Explicit(None)
    }
    fn simple_stmt(&mut self) -> Stmt {
        match self.src.weighted(&[6, 2, 1, 3, 2, 2, 1, 1]) {
            0 => Stmt::Expr(None, self.expr(), Self::semi()),
            1 => Stmt::Var(None, self.dtors(false), Self::semi()),
            2 => Stmt::Empty(None),
            3 => self.jump_break(),
            4 => self.jump_cont(),
            5 if self.function => {
                let e = if self.src.bool() { Some(self.expr()) } else { None };
                Stmt::Return(None, e, Self::semi())
            }
            6 => Stmt::Throw(None, self.expr(), Self::semi()),
            _ => Stmt::Debugger(None, Self::semi()),
        }
    }
    fn jump_break(&mut self) -> Stmt {
        if !self.labels.is_empty() && (self.src.bool() || !(self.iteration || self.switch)) {
            let i = self.src.below(self.labels.len() as u64) as usize;
            let n = self.labels[i].0.clone();
            return Stmt::Break(None, Some(id(&n)), Self::semi());
        }
        if self.iteration || self.switch { Stmt::Break(None, None, Self::semi()) } else { Stmt::Empty(None) }
    }
    fn jump_cont(&mut self) -> Stmt {
        let loops: Vec<String> = self.labels.iter().filter(|l| l.1).map(|l| l.0.clone()).collect();
        if !self.iteration {
            return Stmt::Debugger(None, Self::semi());
        }
        if !loops.is_empty() && self.src.bool() {
            let n = self.src.pick(&loops).clone();
            return Stmt::Cont(None, Some(id(&n)), Self::semi());
        }
        Stmt::Cont(None, None, Self::semi())
    }

    fn loop_body(&mut self, closed: bool) -> Box<Stmt> {
        let saved = std::mem::replace(&mut self.iteration, true);
        let s = self.stmt(closed);
        self.iteration = saved;
        Box::new(s)
    }

    fn stmt_inner(&mut self, closed: bool) -> Stmt {
        if self.low() {
            return self.simple_stmt();
        }
        match self.src.weighted(&[14, 2, 3, 2, 1, 2, 2, 6]) {
            0 => self.simple_stmt(),
            1 => Stmt::Block(self.block()),
            2 => {
                let test = self.expr();
                let alt = closed || self.src.bool();
                let cons = Box::new(self.stmt(alt));
                let alt = if alt { Some(Box::new(self.stmt(closed))) } else { None };
                Stmt::If(None, test, cons, alt)
            }
            3 => self.labelled(closed),
            4 if !self.strict => {
                let e = self.expr();
                Stmt::With(None, e, Box::new(self.stmt(closed)))
            }
            5 => {
                let e = self.expr();
                let saved = std::mem::replace(&mut self.switch, true);
                let n = self.src.count(2, 4);
                let mut default = false;
                let cases = (0..n)
                    .map(|_| {
                        let is_default = !default && self.src.chance(1, 4);
                        default |= is_default;
                        let test = if is_default { None } else { Some(self.expr()) };
                        Case { location: None, test, body: self.items(1, 4) }
                    })
                    .collect();
                self.switch = saved;
                Stmt::Switch(None, e, cases)
            }
            6 => {
                let b = self.block();
                let k = self.src.below(3);
                let c = if k != 1 {
                    let p = self.bind_patt();
                    Some(Box::new(Catch { location: None, param: p, body: self.block() }))
                } else {
                    None
                };
                let f = if k != 0 { Some(self.block()) } else { None };
                Stmt::Try(None, b, c, f)
            }
            _ => self.iteration_stmt(closed),
        }
    }

    fn labelled(&mut self, closed: bool) -> Stmt {
        let n = 1 + self.src.count(1, 3);
        let mut names: Vec<String> = vec![];
        for _ in 0..n {
            let mut l = if self.src.bool() {
                // labels are a namespace of their own
                let l = self.name();
                if self.o.portable && (l == "let" || l == "await" || l == "yield") { "lab".to_string() } else { l }
            } else {
                "l".to_string()
            };
            while names.contains(&l) || self.labels.iter().any(|x| x.0 == l) {
                self.fresh += 1;
                l = format!("l{}", self.fresh);
            }
            names.push(l);
        }
        let is_loop = self.src.bool();
        let keep = self.labels.len();
        for l in &names {
            self.labels.push((l.clone(), is_loop));
        }
        let mut body = if is_loop {
            self.iteration_stmt(closed)
        } else {
            let s = self.stmt(closed);
            // a loop here would make the labels loop labels
            match s {
                Stmt::While(..) | Stmt::DoWhile(..) | Stmt::For(..) | Stmt::ForIn(..) | Stmt::ForOf(..) | Stmt::Label(..) => {
                    Stmt::Block(Block { location: None, items: vec![StmtListItem::Stmt(s)] })
                }
                s => s,
            }
        };
        self.labels.truncate(keep);
        for l in names.iter().rev() {
            body = Stmt::Label(None, id(l), Box::new(body));
        }
        body
    }

    pub fn iteration_stmt(&mut self, closed: bool) -> Stmt {
        self.fuel -= 1;
        match self.src.weighted(&[2, 2, 4, 3, 3]) {
            0 => {
                let e = self.expr();
                Stmt::While(None, e, self.loop_body(closed))
            }
            1 => {
                // what follows the body is while, never else
                let b = self.loop_body(false);
                Stmt::DoWhile(None, b, self.expr(), Self::semi())
            }
            2 => {
                let head = match self.src.weighted(&[2, 3, 2, 2, 2]) {
                    0 => None,
                    1 => Some(Box::new(ForHead::Var(None, self.dtors(false)))),
                    2 => Some(Box::new(ForHead::Let(None, self.dtors(true)))),
                    3 => Some(Box::new(ForHead::Const(None, self.const_dtors()))),
                    _ => Some(Box::new(ForHead::Expr(None, self.expr()))),
                };
                let t = if self.src.bool() { Some(self.expr()) } else { None };
                let u = if self.src.bool() { Some(self.expr()) } else { None };
                Stmt::For(None, head, t, u, self.loop_body(closed))
            }
            3 => {
                let head = match self.src.weighted(&[2, 2, 2, 3, 1]) {
                    0 => ForInHead::Var(None, self.var_patt()),
                    1 => ForInHead::Let(None, self.bind_patt()),
                    2 => ForInHead::Const(None, self.bind_patt()),
                    3 => ForInHead::Patt(self.assign_patt(2)),
                    _ if self.strict => ForInHead::Var(None, self.var_patt()),
                    _ => {
                        let b = self.var_binding();
                        ForInHead::VarInit(None, b, self.expr())
                    }
                };
                let e = self.expr();
                Stmt::ForIn(None, Box::new(head), e, self.loop_body(closed))
            }
            _ => {
                let head = match self.src.weighted(&[2, 2, 2, 3]) {
                    0 => ForOfHead::Var(None, self.var_patt()),
                    1 => ForOfHead::Let(None, self.bind_patt()),
                    2 => ForOfHead::Const(None, self.bind_patt()),
                    _ => ForOfHead::Patt(self.assign_patt(2)),
                };
                let e = self.expr();
                Stmt::ForOf(None, Box::new(head), e, self.loop_body(closed))
            }
        }
    }

    pub fn program(&mut self) -> Script {
        let nd = if self.src.chance(1, 4) { 1 + self.src.count(1, 3) } else { 0 };
        let dirs = (0..nd).map(|_| self.directive(false)).collect();
        let items = self.items(4, 12);
        Body { location: None, dirs, items }
    }
}

fn matches_id(e: &Expr) -> bool {
    match *e {
        Expr::Id(_) => true,
        _ => false,
    }
}

pub fn to_module(s: Script) -> Body<ModItem> {
    Body { location: s.location, dirs: s.dirs, items: s.items.into_iter().map(ModItem::StmtListItem).collect() }
}

pub fn goal(src: &mut Src) -> Goal {
    *src.pick(&[Goal::Script, Goal::Strict, Goal::Module])
}
