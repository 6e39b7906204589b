//! C19: the parser against an independent one.
use crate::acorn;
use crate::astgen::{Goal, Opts};
use crate::engine::*;
use crate::parsedrv::*;
use crate::print::{Lay, Style};
use std::sync::OnceLock;

fn judge(goal: Goal, text: &str, case: &mut Case) {
    case.set_input(format!("{:?} {:?}", goal, text));
    let parsed = parse(goal, text);
    let verdict = acorn::compare(goal, text, parsed.as_ref().ok());
    let (kind, rest) = match verdict.find(' ') {
        Some(i) => (&verdict[..i], &verdict[i + 1..]),
        None => (&verdict[..], ""),
    };
    match kind {
        "same" => {
            case.nontrivial = true;
            case.class("accepted by both, same tree");
        }
        "reject" => {
            case.nontrivial = true;
            case.class("rejected by both");
        }
        "skip" => case.class(format!("outside the comparison: {}", rest)),
        _ => {
            let why = parsed.err().map(|e| format!(" (rejected with {:?})", e)).unwrap_or_default();
            case.fail(format!("{}{}", rest, why));
        }
    }
}

fn base(src: &mut Src, size: i64) -> Made {
    let goal = crate::astgen::goal(src);
    let mut o = Opts::new(goal, src.range(1, size));
    o.portable = true;
    o.plain = src.bool();
    let style = Style::any(src);
    let mut l = Lay::any(src);
    l.html = false;
    make(src, o, style, &l)
}

fn c19_programs(src: &mut Src, case: &mut Case) {
    let m = base(src, 60);
    judge(m.goal, &m.laid.text, case);
}

fn c19_mangled(src: &mut Src, case: &mut Case) {
    let m = base(src, 24);
    let text = mangle(src, &m.toks);
    judge(m.goal, &text, case);
}

fn c19_soup(src: &mut Src, case: &mut Case) {
    let goal = crate::astgen::goal(src);
    let text = soup(src);
    judge(goal, &text, case);
}

/// All sequences of up to three of these, alone and inside a few constructs.
static WORDS: &[&str] = &[
    "a", "0", "''", "/b/g", "this", "\n", ";", ",", ".", "...", "(", ")", "[", "]", "{", "}", ":", "?", "=", "+=", "+", "-", "/", "*", "<", "&&", "!", "++", "--",
    "in", "of", "instanceof", "typeof", "new", "var", "let", "const", "function", "return", "if", "else", "for", "while", "do", "break", "continue", "throw", "try",
    "catch", "finally", "switch", "case", "default", "with", "get", "set", "yield", "a:", "eval", "static", "'use strict'", "debugger", "new.target", "enum",
];
static AROUND: &[(&str, &str)] = &[
    ("", ""),
    ("a ", " a"),
    ("for(", ")a"),
    ("for(var a", ";;);"),
    ("for(a of", ");"),
    ("function f(", "){}"),
    ("function f(){", "}"),
    ("x={", "}"),
    ("[", "]=a"),
    ("({", "}=a)"),
    ("a(", ")"),
    ("new a", "(a)"),
    ("do a", "while(a)a"),
    ("while(a){", "}"),
    ("switch(a){", "}"),
    ("try{}", ""),
    ("l:while(1){", " l}"),
    ("if(a)a", "else a"),
    ("var a", "=a"),
    ("'use strict'", "a"),
    ("a=a", "a=a"),
    ("x={get ", "{}}"),
];
fn sequences() -> u64 {
    let n = WORDS.len() as u64;
    1 + n + n * n
}
fn c19_enumerated(src: &mut Src, case: &mut Case) {
    let i = src.below(sequences() * AROUND.len() as u64);
    let (around, mut i) = (AROUND[(i / sequences()) as usize], i % sequences());
    let n = WORDS.len() as u64;
    let mut words = vec![];
    while i > 0 {
        words.push(WORDS[((i - 1) % n) as usize]);
        i = (i - 1) / n;
    }
    let text = format!("{} {} {}", around.0, words.join(" "), around.1);
    judge(Goal::Script, &text, case);
}
/// Longer sequences inside the same constructs.
fn c19_drawn(src: &mut Src, case: &mut Case) {
    let goal = crate::astgen::goal(src);
    let around = *src.pick(AROUND);
    let k = 3 + src.count(2, 8);
    let words: Vec<&str> = (0..k).map(|_| *src.pick(WORDS)).collect();
    let text = format!("{} {} {}", around.0, words.join(" "), around.1);
    judge(goal, &text, case);
}

/// Heads, arms and small statements: what a single token rarely adds up to.
static PHRASES: &[&str] = &[
    "case a:", "default:", "l:", "m:", "if(a)", "else", "for(;;)", "for(a in b)", "for(var a of b)", "for(let a in b)", "do", "while(a)", "with(a)", "switch(a){", "{", "}", "try{}", "try{", "catch(e){}",
    "catch(e){", "finally{}", "finally{", "function f(){}", "function f(){", "function*g(){", "function(){}", "get a(){},", "set a(b){},", "a:b,", "a,", "*a(){},", "a(){},", "[a]", "{a}", "=a", "break;", "continue;",
    "break l;", "continue l;", "break m;", "continue m;", "return", "return;", "throw a;", "throw", "a;", "a\n", ";", "var a", "let a", "const a=0", "let b=0;", "(", ")", "(a)", "(a,b)", ",", "...a", "a?b", ":c", "new a", "new",
    "a.b", ".in", "++", "+", "!", "typeof", "=", "+=", "yield a", "yield", "yield*", "'use strict';", "010", "/a/g", "debugger;", "new.target", "this", "''",
];
fn pairs() -> u64 {
    (PHRASES.len() * PHRASES.len()) as u64
}
fn c19_phrase_pairs(src: &mut Src, case: &mut Case) {
    let i = src.below(pairs() * AROUND.len() as u64);
    let (around, i) = (AROUND[(i / pairs()) as usize], (i % pairs()) as usize);
    let text = format!("{} {} {} {}", around.0, PHRASES[i / PHRASES.len()], PHRASES[i % PHRASES.len()], around.1);
    judge(Goal::Script, &text, case);
}
/// Longer sequences, from few different phrases so that they meet again; a
/// construct that is left open is closed as often as not.
fn c19_phrases(src: &mut Src, case: &mut Case) {
    let goal = crate::astgen::goal(src);
    let around = *src.pick(AROUND);
    let few: Vec<&str> = (0..2 + src.below(5)).map(|_| *src.pick(PHRASES)).collect();
    let k = 2 + src.count(4, 10);
    let mut text = String::from(around.0);
    let mut open = vec![];
    for _ in 0..k {
        let p = if src.chance(1, 4) { *src.pick(PHRASES) } else { *src.pick(&few) };
        text.push(' ');
        text.push_str(p);
        for c in p.chars() {
            match c {
                '{' => open.push('}'),
                '(' => open.push(')'),
                '}' | ')' => drop(open.pop()),
                _ => (),
            }
        }
    }
    if src.chance(3, 4) {
        while let Some(c) = open.pop() {
            text.push(c);
        }
    }
    text.push(' ');
    text.push_str(around.1);
    judge(goal, &text, case);
}

/// Constructs with the phrases that belong in them: all sequences of up to
/// four, however repeated.
static KIN: &[(&str, &str, &[&str])] = &[
    ("switch(a){", "}", &["case a:", "default:", "a;", "break;", "function f(){}", "let a;", "l:", ";"]),
    ("switch(a){case a:", "}", &["if(b)", "let a;", "else", "let", "c", "while(d)", ";", "function f(){}"]),
    ("function f(){switch(a){default:", "}}", &["l:", "const a=b;", "do", "while(c)", "return", "break", ";", "{"]),
    ("switch(a){case a:", "} a", &["case", "a", ":", "default", "break", "{", "}", ";"]),
    ("try{}", "", &["catch(e){}", "finally{}", "catch{}", "a;", ";", "\n", "try{}", "catch([a]){}"]),
    ("if(a)", "", &["if(a)", "else", "a;", ";", "{}", "\n", "do", "while(a)"]),
    ("", "", &["do", "a;", ";", "while(a)", "\n", "{", "}", "a"]),
    ("for(", ")a", &["var a", "a", "=0", ";", ",b", "in c", "of c", "let"]),
    ("for(", ")a", &["a", "+b", ".b", "()", "in c", ";", "[b]", "=c"]),
    ("for(let ", ";", &["a", "[b]", "{c}", "=d", ";", "of e", "in f", ")"]),
    ("for(const ", ";)a", &["a", "=d", ",", ";", "of e", "[b]", "in", "b"]),
    ("x={", "}", &["a", ",", ":b", "get", "set", "c(){}", "'s'", "=d"]),
    ("x={", "}", &["get a(){}", "set a(b){}", "a", ",", "a(){}", "*a(){}", "0:a", "if"]),
    ("({", "}=a)", &["a", ",", ":b", ":{c}", ":[d]", "=e", ":f.g", "if"]),
    ("[", "]=a", &["a", ",", "...", "[b]", "{c}", "=d", "e.f", "(g)"]),
    ("var{", "}=a", &["a", ",", ":b", ":{c}", ":[d]", "=e", "if", "'s'"]),
    ("let[", "]=a", &["a", ",", "...", "[b]", "{c}", "=d", "let", "e.f"]),
    ("function f(", "){}", &["a", ",", "...", "[b]", "{c}", "=d", "e", "a"]),
    ("function f(", "){'use strict'}", &["a", ",", "[b]", "{c}", "e", "eval", "yield", "..."]),
    ("function f(){", "}", &["return", "a", ";", "\n", "'use strict'", "yield", "break", "with(a)"]),
    ("function*f(){", "}", &["yield", "a", "*", "\n", ",", ";", "=", "("]),
    ("l:while(a){", "}", &["break", "continue", "l", "\n", ";", "m:", "function g(){", "}"]),
    ("l:", "", &["m:", "l:", "{", "}", "break l;", "continue l;", "while(a)", "function f(){}"]),
    ("", "", &["'use strict'", ";", "\n", "+a", ".a", "with(a);", "010", "function f(){"]),
    ("function f(){", "}", &["'use strict'", ";", "\n", ",a", "'\\07'", "implements", "010", "(\"use strict\")"]),
    ("new ", "", &["a", ".b", "(c)", "new", "[d]", ".target", "function(){}", "++"]),
    ("a", "", &["?b", ":c", "=d", ",e", "+f", "(g)", "in h", "\n"]),
    ("a", "b", &["++", "--", "+", "-", "\n", "!", "c", ";"]),
    ("a(", ")", &["b", ",", "...", "c=d", "yield", "(", ")", "[e]"]),
    ("var a", "", &["=b", ",c", "\n", ";", "d", "=", "let", "[e]"]),
    ("let", "", &["a", "[b]", "=c", "\n", ";", "{d}", "let", "in e"]),
    ("a=", "", &["b", "/", "/c/g", "\n", "++", ")", "(", "/="]),
    ("return", "", &["a", ";", "\n"]),
    ("{", "}", &["function f(){}", "let a;", "const b=0;", "'use strict';", "c:", "{", "}", "/d/g"]),
    ("with(a)", "", &["b;", "function f(){}", "l:", "let", "\n", "[c]", "var d;", "else"]),
    ("throw", "", &["a", "\n", ";", "+", "(b)", "new"]),
    ("x=", "", &["function(){}", "(", ")", "()", "function a(){}", ",", "\n", ";"]),
];
fn kin_size(k: usize) -> u64 {
    let n = KIN[k].2.len() as u64;
    1 + n + n * n + n * n * n + n * n * n * n
}
pub fn kin_count() -> u64 {
    (0..KIN.len()).map(kin_size).sum()
}
fn c19_kin(src: &mut Src, case: &mut Case) {
    let text = kin_text(src).0;
    judge(Goal::Script, &text, case);
}
/// One of them, and the constructs to put it in.
pub fn kin_text(src: &mut Src) -> (String, Vec<(&'static str, &'static str)>) {
    let mut i = src.below(kin_count());
    let mut k = 0;
    while i >= kin_size(k) {
        i -= kin_size(k);
        k += 1;
    }
    let (before, after, phrases) = KIN[k];
    let n = phrases.len() as u64;
    let mut text = String::from(before);
    while i > 0 {
        text.push(' ');
        text.push_str(phrases[((i - 1) % n) as usize]);
        i = (i - 1) / n;
    }
    text.push(' ');
    text.push_str(after);
    (text, vec![("", ""), ("switch(a){default:if(b)", "}"), ("function f(){while(a){", "}}"), ("'use strict';l:", "")])
}
/// More of them, in any of the goals.
fn c19_kin_longer(src: &mut Src, case: &mut Case) {
    let goal = crate::astgen::goal(src);
    let (before, after, phrases) = *src.pick(KIN);
    let mut text = String::from(before);
    for _ in 0..2 + src.count(4, 12) {
        text.push(' ');
        text.push_str(if src.chance(1, 10) { *src.pick(PHRASES) } else { *src.pick(phrases) });
    }
    text.push(' ');
    text.push_str(after);
    judge(goal, &text, case);
}

/// Any of these texts.
pub fn phrase_text(src: &mut Src) -> String {
    let (before, after, phrases) = if src.chance(1, 4) {
        let a = *src.pick(AROUND);
        (a.0, a.1, if src.bool() { PHRASES } else { WORDS })
    } else {
        *src.pick(KIN)
    };
    let mut text = String::from(before);
    for _ in 0..1 + src.count(3, 9) {
        text.push(' ');
        text.push_str(match src.below(10) {
            0 => *src.pick(PHRASES),
            1 => *src.pick(WORDS),
            _ => *src.pick(phrases),
        });
    }
    text.push(' ');
    text.push_str(after);
    text
}

/// Small files of packages that come with the node tools.
static PACKAGES: &[&str] = &["underscore", "neo-async", "@babel/helpers", "resolve", "handlebars", "js-yaml", "minimist", "argparse", "readable-stream", "diff", "esutils", "inherits"];
fn collect(dir: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    if let Ok(l) = std::fs::read_dir(dir) {
        for e in l.flatten() {
            let (p, meta) = (e.path(), e.metadata());
            match meta {
                Ok(ref m) if m.is_dir() => collect(&p, out),
                Ok(ref m) if m.is_file() && m.len() < 6000 && p.extension().map_or(false, |x| x == "js") => out.push(p),
                _ => (),
            }
        }
    }
}
/// Their texts in pieces: words, single spaces, runs of punctuation.
fn real() -> &'static Vec<Vec<String>> {
    static R: OnceLock<Vec<Vec<String>>> = OnceLock::new();
    R.get_or_init(|| {
        let mut files = vec![];
        for p in PACKAGES {
            collect(&std::path::Path::new("/opt/veriftools/node/node_modules").join(p), &mut files);
        }
        files.sort();
        let kind = |c: char| if c.is_alphanumeric() || c == '_' || c == '$' { 1 } else if c == ' ' { 2 } else { 0 };
        let mut all = vec![];
        for t in files.iter().filter_map(|f| std::fs::read_to_string(f).ok()) {
            let mut v: Vec<String> = vec![];
            let mut last = 2;
            for c in t.chars() {
                let k = kind(c);
                if k != 2 && k == last {
                    v.last_mut().unwrap().push(c);
                } else {
                    v.push(c.to_string());
                }
                last = k;
            }
            if v.len() > 4 && !v[0].starts_with('#') {
                all.push(v);
            }
        }
        all
    })
}
fn c19_real(src: &mut Src, case: &mut Case) {
    let files = real();
    if files.is_empty() {
        return case.class("no programs found");
    }
    let mut t = src.pick(files).clone();
    let goal = match src.below(4) {
        0 => Goal::Strict,
        1 => Goal::Module,
        _ => Goal::Script,
    };
    for _ in 0..src.count(2, 5) {
        let n = t.len() as u64;
        if n < 2 {
            break;
        }
        let (i, j) = (src.below(n) as usize, src.below(n) as usize);
        match src.below(9) {
            0 => {
                t.remove(i);
            }
            1 => {
                let x = t[i].clone();
                t.insert(i, x)
            }
            2 => t.swap(i, j),
            3 => t[i] = t[j].clone(),
            4 => t.insert(i, src.pick(WORDS).to_string()),
            5 => t[i] = src.pick(SOUP).to_string(),
            6 => {
                let k = (i + 1 + src.below(30) as usize).min(t.len());
                t.drain(i..k);
            }
            7 => {
                let other = src.pick(files);
                let a = src.below(other.len() as u64) as usize;
                let b = (a + 1 + src.below(30) as usize).min(other.len());
                t.splice(i..i, other[a..b].iter().cloned());
            }
            _ => {
                let w = src.pick(WORDS).to_string();
                t[i] = format!(" {} ", w);
            }
        }
    }
    judge(goal, &t.concat(), case);
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C19",
        rule: "a text both parsers accept or both reject (not one set aside as unsupported or an unclaimed early error)",
        subs: vec![
            sub("programs", c19_programs, 20000, 500000),
            sub("programs with tokens changed", c19_mangled, 150000, 6000000),
            sub("token soup", c19_soup, 20000, 1000000),
            enumerate_all("two tokens in a construct", c19_enumerated, || sequences() * AROUND.len() as u64),
            sub("more tokens in a construct", c19_drawn, 80000, 4000000),
            enumerate_all("two phrases in a construct", c19_phrase_pairs, || pairs() * AROUND.len() as u64),
            sub("more phrases in a construct", c19_phrases, 80000, 6000000),
            enumerate_all("phrases that belong together", c19_kin, kin_count),
            sub("more phrases that belong together", c19_kin_longer, 80000, 6000000),
            sub("real programs changed", c19_real, 30000, 2000000),
        ],
        assumptions: vec!["acorn reads ECMAScript 2017 as the standard says"],
    }]
}
