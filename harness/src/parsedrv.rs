//! Driving the parser: generated programs with their expected trees, and the parser's answers.
use crate::ast::{self, Detail};
use crate::astgen::{Gen, Goal, Opts};
use crate::engine::*;
use crate::print::{self, Laid, Lay, Style, Tok};
use easter::stmt::{Body, ModItem, Module, Script};
use esprit::error::Error;

pub fn from_module(m: Module) -> Script {
    let Body { location, dirs, items } = m;
    Body {
        location,
        dirs,
        items: items
            .into_iter()
            .map(|i| match i {
                ModItem::StmtListItem(i) => i,
                _ => panic!("{}: import or export in a parsed module", NO_PROGRESS),
            })
            .collect(),
    }
}

pub fn parse(goal: Goal, text: &str) -> Result<Script, Error> {
    match goal {
        Goal::Script => esprit::script(text),
        Goal::Strict => esprit::strict(text),
        Goal::Module => esprit::module(text).map(from_module),
    }
}
/// Parsing without a goal, then asking for one.
pub fn parse_later(goal: Goal, text: &str) -> Result<Script, Error> {
    let p = esprit::program(text)?;
    match goal {
        Goal::Script => p.script(),
        Goal::Strict => p.strict(),
        Goal::Module => p.module().map(from_module),
    }
}

/// A program laid out as text, with the tree it must parse to.
pub struct Made {
    pub goal: Goal,
    pub tree: Script,
    pub toks: Vec<Tok>,
    pub laid: Laid,
}

impl Made {
    pub fn input(&self) -> String {
        format!("{:?} {:?}", self.goal, self.laid.text)
    }
}

pub fn lay(src: &mut Src, goal: Goal, mut tree: Script, style: Style, lay: &Lay) -> Made {
    let toks = print::print(src, &mut tree, style);
    let mut lay = *lay;
    // modules have no HTML-like comments
    lay.html &= goal != Goal::Module;
    let laid = print::lay_out(src, &toks, &lay);
    laid.locate(&mut tree);
    laid.canonical(&mut tree);
    Made { goal, tree, toks, laid }
}

pub fn make(src: &mut Src, opts: Opts, style: Style, l: &Lay) -> Made {
    let goal = opts.goal;
    let tree = Gen::new(src, opts).program();
    lay(src, goal, tree, style, l)
}

/// Parses and compares with the expected tree.
pub fn expect(made: &mut Made, detail: Detail, case: &mut Case) {
    match parse(made.goal, &made.laid.text) {
        Err(e) => case.fail(format!("rejected: {:?}", e)),
        Ok(mut t) => {
            made.laid.canonical(&mut t);
            let (e, a) = (ast::dump(&mut made.tree, detail), ast::dump(&mut t, detail));
            if let Some(d) = ast::dump_diff(&e, &a) {
                case.fail(d);
            }
        }
    }
}

/// Number of nodes.
pub fn weight<T: ast::Walk>(t: &mut T) -> usize {
    struct N(usize);
    impl ast::Vis for N {
        fn open(&mut self, _: &'static str) {
            self.0 += 1;
        }
    }
    let mut n = N(0);
    t.walk(&mut n);
    n.0
}

/// The kinds of node in a tree, for the record of what was covered.
pub fn kinds<T: ast::Walk>(t: &mut T, case: &mut Case) {
    struct N(std::collections::BTreeSet<&'static str>);
    impl ast::Vis for N {
        fn open(&mut self, k: &'static str) {
            if k != "[" && k != "-" {
                self.0.insert(k);
            }
        }
    }
    let mut n = N(Default::default());
    t.walk(&mut n);
    for k in n.0 {
        case.class(k);
    }
}

// ---------------------------------------------------------------- texts that need not be programs

pub static SOUP: &[&str] = &[
    "a", "b", "of", "let", "async", "yield", "get", "set", "target", "static", "eval", "arguments", "await", "0", "1.5", "0x1", "'s'", "\"use strict\"", "/r/g",
    "this", "null", "true", "false", "break", "case", "catch", "class", "const", "continue", "debugger", "default", "delete", "do", "else", "extends",
    "finally", "for", "function", "if", "in", "instanceof", "new", "return", "super", "switch", "throw", "try", "typeof", "var", "void", "while", "with",
    "enum", "{", "}", "(", ")", "[", "]", ".", "...", ";", ",", "<", ">", "<=", "==", "===", "+", "-", "*", "%", "++", "--", "<<", ">>>", "&", "&&", "||", "!",
    "~", "?", ":", "=", "+=", "*=", "/", "/=", "=>", "\n", "\r\n", "\u{2028}", "/* c */", "/*\n*/", "// c\n", "<!-- c\n", "\\u0061", "l\\u0065t", "`", "@", "#",
    "for (", "if (a)", "while (", "function f(", ") {", "new new", "new.target", "case 1:", "default:", "l:", "({", "})", "[,", "a.b", "a[b]", "(a", "x = {",
];

pub fn soup(src: &mut Src) -> String {
    let n = 1 + src.count(8, 40);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(*src.pick(SOUP));
        if !src.chance(1, 8) {
            s.push(' ');
        }
    }
    s
}

/// The texts of a program's tokens, changed in a few places.
pub fn mangle(src: &mut Src, toks: &[Tok]) -> String {
    let mut t: Vec<String> = toks.iter().map(|t| t.text.clone()).collect();
    let k = 1 + src.count(1, 3);
    for _ in 0..k {
        if t.is_empty() {
            break;
        }
        let i = src.below(t.len() as u64) as usize;
        match src.below(6) {
            0 => {
                t.remove(i);
            }
            1 => {
                let w = src.pick(SOUP).to_string();
                t.insert(i, w);
            }
            2 => t[i] = src.pick(SOUP).to_string(),
            3 => {
                let j = src.below(t.len() as u64) as usize;
                t.swap(i, j);
            }
            4 => {
                let j = (i + 1 + src.below(4) as usize).min(t.len());
                let part: Vec<String> = t[i..j].to_vec();
                let p = src.below(t.len() as u64 + 1) as usize;
                for (d, x) in part.into_iter().enumerate() {
                    t.insert(p + d, x);
                }
            }
            _ => t.truncate(i),
        }
    }
    let mut s = String::new();
    for x in t {
        s.push_str(&x);
        s.push(if src.chance(1, 12) { '\n' } else { ' ' });
    }
    s
}

/// A text: a program, nearly a program, or nothing of the kind.
pub fn any_text(src: &mut Src, case: &mut Case) -> String {
    let k = src.weighted(&[3, 5, 2, 2, 1, 2]);
    if k == 5 {
        case.class("phrases");
        return crate::acornprops::phrase_text(src);
    }
    if k == 2 {
        case.class("token soup");
        return soup(src);
    }
    let goal = crate::astgen::goal(src);
    let mut o = Opts::new(goal, src.range(1, 40));
    o.plain = src.bool();
    let style = Style::any(src);
    let l = Lay::any(src);
    let m = make(src, o, style, &l);
    match k {
        0 => {
            case.class("program");
            m.laid.text
        }
        1 => {
            case.class("program with tokens changed");
            mangle(src, &m.toks)
        }
        3 => {
            case.class("program with characters changed");
            crate::lexgen::mutate(src, &m.laid.text, true)
        }
        _ => {
            case.class("program cut off");
            let n = src.below(m.laid.chars.len() as u64 + 1) as usize;
            m.laid.chars[..n].iter().collect()
        }
    }
}
