//! Properties C01 to C10: the lexer.
use crate::engine::*;
use crate::lexdrv::{self, diff, diff_lexed, p3, posn};
use crate::lexgen::{self, Layout};
use crate::reflex::{self, Ref};
use crate::tok::{self, tok_dump};
use joker::token::{Token, TokenData};
use std::collections::VecDeque;

fn chars(s: &str) -> Vec<char> {
    s.chars().collect()
}
fn ops(src: &mut Src) -> Vec<bool> {
    (0..8).map(|_| src.bool()).collect()
}
fn op_at(v: &[bool], i: usize) -> bool {
    v[i % v.len()]
}
/// All characters whose classification depends on the Unicode version are outside the reference's knowledge.
fn known_chars(cs: &[char]) -> bool {
    cs.iter().all(|&c| (c as u32) < 0x80 || reflex::assigned(c))
}

// ------------------------------------------------------------------ C01

fn totality(cs: &[char], op: &[bool], case: &mut Case) {
    let mut l = lexdrv::lexer(cs);
    let mut prev = 0u32;
    let mut n = 0;
    loop {
        if n > cs.len() {
            case.fail("more tokens than characters");
            return;
        }
        match l.read_token(op_at(op, n)) {
            Err(e) => {
                case.class(format!("error {}", tok::err_dump(&e).split(' ').next().unwrap()));
                break;
            }
            Ok(t) => {
                let (s, e) = (t.location.start.offset, t.location.end.offset);
                if t.value == TokenData::EOF {
                    case.class("end of input");
                    if e as usize != cs.len() || s != e {
                        case.fail(format!("end of input reported at {}..{} of {} characters", s, e, cs.len()));
                    }
                    for k in 0..6 {
                        match l.read_token(k % 2 == 0) {
                            Ok(ref u) if u.value == TokenData::EOF && u.location == t.location => {}
                            other => {
                                case.fail(format!("read {} after the end of input gives {:?}", k, other));
                                return;
                            }
                        }
                    }
                    break;
                }
                if e <= s || s < prev || e as usize > cs.len() {
                    case.fail(format!("token {} spans {}..{} after {}", tok_dump(&t.value), s, e, prev));
                    return;
                }
                prev = e;
                n += 1;
            }
        }
    }
    case.nontrivial = n >= 1 || cs.len() > 1;
}

fn c01_soup(src: &mut Src, case: &mut Case) {
    let t = lexgen::soup(src, true);
    let op = ops(src);
    case.set_input(format!("{:?} modes {:?}", t, op));
    totality(&chars(&t), &op, case);
}
fn c01_raw(src: &mut Src, case: &mut Case) {
    let t: String = (0..src.usize(0, 12)).map(|_| lexgen::ch(src, true)).collect();
    let op = ops(src);
    case.set_input(format!("{:?} modes {:?}", t, op));
    totality(&chars(&t), &op, case);
}
/// Every prefix of a well-formed text: the end of input in every lexer state.
fn c01_prefix(src: &mut Src, case: &mut Case) {
    let l = lexgen::lexemes(src, 4);
    let l = Layout::new(src, l);
    let cs = chars(&l.text());
    let mut op = l.ops();
    op.push(src.bool());
    case.set_input(format!("{:?}", l.text()));
    for k in 0..=cs.len() {
        totality(&cs[..k], &op, case);
        case.subcases += 1;
        if case.failed() {
            case.set_input(format!("{:?} (prefix of length {})", cs[..k].iter().collect::<String>(), k));
            return;
        }
    }
}
static C01_ALPHA: &[char] = &['\\', 'u', '{', '}', '4', 'x', '0', 'e', '/', '[', ']', '*', '\'', '"', '\n', '\r', '<', '!', '-', '>', '.', '=', '+', ' ', 'a', '\u{2028}', '8', '1'];
fn c01_short(src: &mut Src, case: &mut Case) {
    let n = C01_ALPHA.len() as u64;
    let mut i = src.below(n * n * n);
    let mut cs = vec![];
    for _ in 0..3 {
        cs.push(C01_ALPHA[(i % n) as usize]);
        i /= n;
    }
    case.set_input(format!("{:?} and one more character", cs.iter().collect::<String>()));
    for &d in C01_ALPHA {
        cs.push(d);
        for op in &[true, false] {
            totality(&cs, &[*op], case);
            case.subcases += 1;
            if case.failed() {
                case.set_input(format!("{:?} mode {}", cs.iter().collect::<String>(), op));
                return;
            }
        }
        cs.pop();
    }
}

// ------------------------------------------------------------------ C02

fn c02_layout(src: &mut Src, case: &mut Case) {
    let l = lexgen::lexemes(src, 14);
    let l = Layout::new(src, l);
    let text = l.text();
    case.set_input(format!("{:?}", text));
    let cs = chars(&text);
    let ops = l.ops();
    let real = lexdrv::lex(&cs, |i| ops.get(i).cloned().unwrap_or(true));
    let exp = l.expected();
    if real.err.is_some() || real.toks.len() != exp.len() {
        case.fail(format!("expected {} tokens, got {} and {:?}", exp.len(), real.toks.len(), real.err));
        return;
    }
    for (a, b) in real.toks.iter().zip(&exp) {
        let (s, e) = (posn(&cs, b.start), posn(&cs, b.end));
        if p3(&a.location.start) != s || p3(&a.location.end) != e {
            case.fail(format!("{}: location {:?}..{:?}, expected {:?}..{:?}", b.dump, p3(&a.location.start), p3(&a.location.end), s, e));
        }
        if a.newline != b.newline {
            case.fail(format!("{} at {}: newline flag {}, expected {}", b.dump, b.start, a.newline, b.newline));
        }
    }
    let lines = cs.iter().filter(|&&c| reflex::is_nl(c)).count();
    case.class(format!("line terminators: {}", match lines { 0 => "0", 1 => "1", 2..=4 => "2-4", _ => "5+" }));
    if text.contains("\r\n") {
        case.class("CRLF");
    }
    if !text.is_ascii() {
        case.class("non-ASCII");
    }
    case.nontrivial = exp.len() > 2 && lines > 0;
}

/// Any text: the locations and flags of whatever tokens come out are consistent with the text.
fn c02_soup(src: &mut Src, case: &mut Case) {
    let t = lexgen::soup(src, false);
    let op = ops(src);
    case.set_input(format!("{:?} modes {:?}", t, op));
    let cs = chars(&t);
    let real = lexdrv::lex(&cs, |i| op_at(&op, i));
    let mut prev = 0;
    for (i, a) in real.toks.iter().enumerate() {
        let (s, e) = (a.location.start.offset as usize, a.location.end.offset as usize);
        if s > e || e > cs.len() || s < prev {
            case.fail(format!("token {} spans {}..{}", tok_dump(&a.value), s, e));
            return;
        }
        if p3(&a.location.start) != posn(&cs, s) || p3(&a.location.end) != posn(&cs, e) {
            case.fail(format!("{}: location {:?}..{:?}, expected {:?}..{:?}", tok_dump(&a.value), p3(&a.location.start), p3(&a.location.end), posn(&cs, s), posn(&cs, e)));
            return;
        }
        // the text between is trivia, and the flag says whether it has a line terminator
        let mut r = Ref::new(&cs);
        r.pos = prev;
        r.bare_line = i == 0;
        match r.trivia() {
            Ok(nl) if r.pos == s => {
                if nl != a.newline {
                    case.fail(format!("{} at {}: newline flag {}, expected {}", tok_dump(&a.value), s, a.newline, nl));
                    return;
                }
            }
            other => {
                case.fail(format!("text {}..{} before {} is not exactly the trivia there ({:?} up to {})", prev, s, tok_dump(&a.value), other, r.pos));
                return;
            }
        }
        // the characters of the token, alone, are that token
        if a.value != TokenData::EOF {
            let part = lexdrv::lex(&cs[s..e], |_| op_at(&op, i));
            let same = part.toks.len() == 2 && part.err.is_none() && tok_dump(&part.toks[0].value) == tok_dump(&a.value) && part.toks[0].location.end.offset as usize == e - s;
            if !same {
                case.fail(format!("characters {}..{} alone do not lex to {}", s, e, tok_dump(&a.value)));
                return;
            }
        }
        prev = e;
    }
    case.nontrivial = real.toks.len() > 1 && cs.iter().any(|&c| reflex::is_nl(c));
}

/// Far into a long text: beyond what small integers count.
fn c02_far(src: &mut Src, case: &mut Case) {
    static FILL: &[&str] = &[" ", "\n", "\r\n", "\r", "\u{2028}", "\t\u{2029}", "/* */", "/*\n*/", "x ", ";", "//\n", "\u{1f600}x\n", "'\\\n'\n", "x\n-->\n"];
    static COUNT: &[usize] = &[127, 128, 255, 256, 257, 1000, 32767, 32768, 65535, 65536, 65537, 70000];
    let i = src.below((FILL.len() * COUNT.len()) as u64) as usize;
    let (fill, count) = (FILL[i / COUNT.len()].replace('\u{1f600}', "/*\u{1f600}*/"), COUNT[i % COUNT.len()]);
    let mut text = fill.repeat(count);
    text.push_str("ab 'c'\n/* */ 1.5");
    case.set_input(format!("{:?} {} times, then \"ab 'c'\\n/* */ 1.5\"", fill, count));
    case.nontrivial = true;
    let cs = chars(&text);
    let real = lexdrv::lex(&cs, |_| true);
    let n = real.toks.len();
    if real.err.is_some() || n < 4 {
        return case.fail(format!("{} tokens and {:?}", n, real.err));
    }
    let end = cs.len();
    let spans = [(end - 16, end - 14), (end - 13, end - 10), (end - 3, end), (end, end)];
    for (t, &(s, e)) in real.toks[n - 4..].iter().zip(&spans) {
        if p3(&t.location.start) != posn(&cs, s) || p3(&t.location.end) != posn(&cs, e) {
            return case.fail(format!("{} is said to be at {:?}..{:?}, but is at {:?}..{:?}", tok_dump(&t.value), p3(&t.location.start), p3(&t.location.end), posn(&cs, s), posn(&cs, e)));
        }
    }
}

// ------------------------------------------------------------------ C03

static C03_ALPHA: &[char] = &[
    '{', '}', '(', ')', '[', ']', '.', ';', ',', '<', '>', '+', '-', '*', '%', '&', '|', '^', '!', '~', '?', ':', '=', '/', '0', 'x', ' ',
];

fn c03_known(cs: &[char], op: &[bool], case: &mut Case) -> bool {
    let o: Vec<bool> = (0..cs.len() + 2).map(|i| op_at(op, i)).collect();
    match diff(cs, &o) {
        Some(d) => {
            case.fail(d);
            false
        }
        None => true,
    }
}

fn c03_short(src: &mut Src, case: &mut Case) {
    let n = C03_ALPHA.len() as u64;
    let mut i = src.below(n * n * n);
    let mut cs = vec![];
    for _ in 0..3 {
        cs.push(C03_ALPHA[(i % n) as usize]);
        i /= n;
    }
    case.nontrivial = true;
    case.set_input(format!("{:?} and one more character", cs.iter().collect::<String>()));
    for k in 0..=C03_ALPHA.len() {
        if k < C03_ALPHA.len() {
            cs.push(C03_ALPHA[k]);
        }
        for op in &[true, false] {
            case.subcases += 1;
            if !c03_known(&cs, &[*op], case) {
                case.set_input(format!("{:?} mode {}", cs.iter().collect::<String>(), op));
                return;
            }
        }
        if k < C03_ALPHA.len() {
            cs.pop();
        }
    }
}

fn c03_each(src: &mut Src, case: &mut Case) {
    let p = tok::PUNCS[src.below(tok::PUNCS.len() as u64) as usize];
    case.set_input(p.to_string());
    case.nontrivial = true;
    for after in &["", " ", "a", "0", ";", "\n", "(", "'s'"] {
        let cs = chars(&format!("{}{}", p, after));
        let r = lexdrv::lex(&cs, |_| true);
        let ok = r.toks.len() >= 1 && tok::punc(&r.toks[0].value) == Some(p) && r.toks[0].location.end.offset as usize == p.len();
        if !ok && !(p == "." && *after == "0") {
            case.fail(format!("{:?} followed by {:?} gives {:?} {:?}", p, after, r.toks.first(), r.err));
        }
    }
}

fn c03_runs(src: &mut Src, case: &mut Case) {
    let mut t = String::new();
    for _ in 0..1 + src.count(8, 30) {
        match src.weighted(&[8, 1, 1]) {
            0 => t.push_str(src.pick(tok::PUNCS)),
            1 => t.push(*src.pick(C03_ALPHA)),
            _ => t.push_str(src.pick(&["a", "1", "1.", ".5", " ", "\n", "'s'", "if", "\u{3c0}"])),
        }
    }
    let op = ops(src);
    case.set_input(format!("{:?} modes {:?}", t, op));
    let cs = chars(&t);
    let (rt, _) = reflex::lex_all(&cs, |i| op_at(&op, i));
    case.nontrivial = rt.iter().filter(|t| t.dump.starts_with("punc")).count() >= 2;
    if rt.iter().any(|t| t.dump.starts_with("re ")) {
        case.class("regular expression after a slash");
    }
    c03_known(&cs, &op, case);
}

// ------------------------------------------------------------------ C04

fn c04_sweep(src: &mut Src, case: &mut Case) {
    let block = src.below(0x110000 / 64) as u32 * 64;
    case.set_input(format!("characters U+{:04X}..U+{:04X} at the start, inside and escaped", block, block + 63));
    for v in block..block + 64 {
        let c = match std::char::from_u32(v) {
            Some(c) if v < 0x80 || reflex::assigned(c) => c,
            _ => continue,
        };
        case.nontrivial = true;
        for form in 0..6 {
            let t = match form {
                0 => format!("{} ", c),
                1 => format!("a{} ", c),
                2 => format!("\\u{{{:x}}} ", v),
                3 => format!("a\\u{{{:x}}} ", v),
                4 if v < 0x10000 => format!("\\u{:04x}b ", v),
                5 if v < 0x10000 => format!("a\\u{:04X}b ", v),
                _ => continue,
            };
            if form < 2 && "\"'/\\*".contains(c) {
                continue;
            }
            case.subcases += 1;
            if let Some(d) = diff(&chars(&t), &[true, true, true, true]) {
                case.set_input(format!("{:?}", t));
                case.fail(d);
                return;
            }
        }
    }
}

fn c04_words(src: &mut Src, case: &mut Case) {
    let w = lexgen::word(src);
    let follow = *src.pick(&["", " ", ";", "(", ".", "'", "=", "\n", "/", "@"]);
    let text = format!("{}{}", w.text, follow);
    case.set_input(format!("{:?}", text));
    case.class(w.kind);
    case.nontrivial = w.kind != "identifier";
    let r = lexdrv::lex(&chars(&text), |_| true);
    match r.toks.first() {
        Some(t) if tok_dump(&t.value) == w.dump && t.location.end.offset as usize == w.text.chars().count() => {}
        other => case.fail(format!("expected {}, got {:?} {:?}", w.dump, other.map(|t| tok_dump(&t.value)), r.err)),
    }
}

/// Words with arbitrary escapes: any spelling against the reference.
fn c04_escapes(src: &mut Src, case: &mut Case) {
    let text = match src.below(3) {
        0 => {
            let w = lexgen::word_text(src);
            lexgen::spell_word(src, &w, true).0
        }
        1 => {
            let mut s = String::new();
            for _ in 0..1 + src.count(2, 6) {
                let c = lexgen::ch(src, false);
                if src.bool() {
                    s.push_str(&lexgen::u_escape(src, c));
                } else {
                    s.push(lexgen::id_part_char(src));
                }
            }
            s
        }
        _ => {
            let w = lexgen::word(src);
            lexgen::mutate(src, &w.text, false)
        }
    };
    case.set_input(format!("{:?}", text));
    let cs = chars(&text);
    if !known_chars(&cs) {
        return;
    }
    case.nontrivial = text.contains('\\');
    if let Some(d) = diff(&cs, &[true; 8]) {
        case.fail(d);
    }
}

fn c04_table(src: &mut Src, case: &mut Case) {
    let n = tok::RESERVED.len() + tok::ATOMS.len();
    let i = src.below(n as u64) as usize;
    case.nontrivial = true;
    let (text, dump) = if i < tok::RESERVED.len() {
        (tok::RESERVED[i].0, format!("kw {}", tok::RESERVED[i].0))
    } else {
        let t = tok::ATOMS[i - tok::RESERVED.len()].0;
        (t, format!("atom {}", t))
    };
    case.set_input(text.to_string());
    let r = lexdrv::lex(&chars(text), |_| true);
    let got = r.toks.first().map(|t| tok_dump(&t.value));
    case.check(got.as_ref() == Some(&dump), || format!("expected {}, got {:?}", dump, got));
    // names convert back to their spelling and from it
    use joker::word::Name;
    if i < tok::RESERVED.len() {
        let r = tok::RESERVED[i].1;
        case.check(r.name() == text && r.into_string() == text, || "reserved word has another name");
    } else {
        let a = tok::ATOMS[i - tok::RESERVED.len()].1;
        let name = Name::from(text.to_string());
        case.check(
            a.name() == text && name == Name::Atom(a) && name.atom() == Some(a) && Name::Atom(a).as_ref() == text && Name::Atom(a).into_string() == text,
            || "contextual word has another name",
        );
    }
    // each character escaped in turn, and each strict prefix and extension
    for (k, _) in text.char_indices() {
        let mut v = vec![format!("{}\\u{:04x}{}", &text[..k], text.as_bytes()[k], &text[k + 1..])];
        if k > 0 {
            v.push(text[..k].to_string());
        }
        v.push(format!("{}{}{}", &text[..k], text[k..k + 1].to_uppercase(), &text[k + 1..]));
        v.push(format!("{}_{}", &text[..k], &text[k..]));
        for t in v {
            case.subcases += 1;
            if let Some(d) = diff(&chars(&t), &[true; 4]) {
                case.set_input(t);
                case.fail(d);
                return;
            }
        }
    }
}

// ------------------------------------------------------------------ C05

fn c05_numbers(src: &mut Src, case: &mut Case) {
    let n = lexgen::number(src);
    let mut follow = *src.pick(&["", " ", ";", ")", "+1", "\n", "//", "..", "/2", "'", "]"]);
    if follow == ".." && (n.kind == "int") {
        follow = "";
    }
    let text = format!("{}{}", n.text, follow);
    case.set_input(format!("{:?}", text));
    case.class(n.kind);
    case.nontrivial = n.text.len() > 1;
    let r = lexdrv::lex(&chars(&text), |_| true);
    match r.toks.first() {
        Some(t) if tok_dump(&t.value) == n.dump && t.location.end.offset as usize == n.text.chars().count() => {}
        other => case.fail(format!("expected {}, got {:?} {:?}", n.dump, other.map(|t| tok_dump(&t.value)), r.err)),
    }
}
static C05_ALPHA: &[char] = &['0', '1', '7', '8', '9', '.', 'e', 'E', '+', '-', 'x', 'X', 'o', 'b', 'B', 'O', 'a', 'F', 'g', '_', '\\', ' '];
fn c05_any(src: &mut Src, case: &mut Case) {
    let mut t = String::new();
    t.push(*src.pick(&['0', '1', '.', '9', '0', '5']));
    for _ in 0..src.count(5, 14) {
        t.push(*src.pick(C05_ALPHA));
    }
    if src.chance(1, 4) {
        t.push(lexgen::ch(src, false));
    }
    case.set_input(format!("{:?}", t));
    case.nontrivial = t.len() > 2;
    if let Some(d) = diff(&chars(&t), &[true; 16]) {
        case.fail(d);
    }
}
fn c05_short(src: &mut Src, case: &mut Case) {
    let n = C05_ALPHA.len() as u64;
    let mut i = src.below(n * n);
    let mut cs = vec!['0'];
    for _ in 0..2 {
        cs.push(C05_ALPHA[(i % n) as usize]);
        i /= n;
    }
    case.set_input(format!("numeric text with {:?}", &cs[1..]));
    case.nontrivial = true;
    for first in &['0', '1', '.', '8'] {
        cs[0] = *first;
        for &d in C05_ALPHA {
            for &e in C05_ALPHA {
                cs.push(d);
                cs.push(e);
                case.subcases += 1;
                if let Some(d) = diff(&cs, &[true; 8]) {
                    case.set_input(format!("{:?}", cs.iter().collect::<String>()));
                    case.fail(d);
                    return;
                }
                cs.pop();
                cs.pop();
            }
        }
    }
}

// ------------------------------------------------------------------ C06

fn c06_strings(src: &mut Src, case: &mut Case) {
    let mut forms = vec![];
    let s = lexgen::string(src, &mut forms);
    let follow = *src.pick(&["", " ", ";", "'", "a", "\\", "\n"]);
    let text = format!("{}{}", s.text, follow);
    case.set_input(format!("{:?}", text));
    forms.sort();
    forms.dedup();
    case.nontrivial = forms.iter().any(|f| *f != "raw");
    for f in forms {
        case.class(f);
    }
    let r = lexdrv::lex(&chars(&text), |_| true);
    match r.toks.first() {
        Some(t) if tok_dump(&t.value) == s.dump && t.location.end.offset as usize == s.text.chars().count() => {}
        other => case.fail(format!("expected {}, got {:?} {:?}", s.dump, other.map(|t| tok_dump(&t.value)), r.err)),
    }
}
static C06_ALPHA: &[char] = &['\\', 'u', '{', '}', '0', '3', '4', '7', '8', 'x', 'a', 'D', '8', 'n', 'b', '\n', '\r', '\u{2028}', '\'', '"', 'g'];
fn c06_any(src: &mut Src, case: &mut Case) {
    let q = *src.pick(&['\'', '"']);
    let mut t = q.to_string();
    for _ in 0..src.count(7, 20) {
        match src.weighted(&[6, 1, 2]) {
            0 => t.push(*src.pick(C06_ALPHA)),
            1 => t.push(lexgen::ch(src, true)),
            _ => t.push_str(src.pick(&["\\u", "\\u{", "\\x", "\\uD8", "\\uDC", "\\uD83D\\uDE00", "\\ud83d", "\\udE00", "\\1", "\\u{d83d}", "\\\r\n", "\\u{10fFff}", "\\u{110000}"])),
        }
    }
    if src.chance(3, 4) {
        t.push(q);
    }
    case.set_input(format!("{:?}", t));
    let cs = chars(&t);
    case.nontrivial = t.contains('\\');
    // compare the string itself only: what follows may be anything
    let mut r = Ref::new(&cs);
    let exp = r.next(true);
    let mut l = lexdrv::lexer(&cs);
    match (exp, l.read_token(true)) {
        (Ok(e), Ok(t)) => {
            let d = tok_dump(&t.value);
            if !reflex::dump_matches(&e.dump, &d) {
                case.fail(format!("got {}, expected {}", d, e.dump));
            }
            if p3(&t.location.end) != posn(&cs, e.end) {
                case.fail(format!("ends at {:?}, expected {:?}", p3(&t.location.end), posn(&cs, e.end)));
            }
            case.class(if e.dump.ends_with('*') { "unpaired surrogate (value not compared)" } else { "accepted" });
        }
        (Err(e), Err(g)) => {
            let d = tok::err_dump(&g);
            case.class("rejected");
            case.check(e.allows(&d), || format!("error {}, expected {:?}", d, e.names));
        }
        (Ok(e), Err(g)) => case.fail(format!("error {}, expected {}", tok::err_dump(&g), e.dump)),
        (Err(e), Ok(t)) => case.fail(format!("got {}, expected error {:?}", tok_dump(&t.value), e.names)),
    }
}
fn c06_escape(src: &mut Src, case: &mut Case) {
    // every character after a backslash
    let block = src.below(0x110000 / 256) as u32 * 256;
    case.set_input(format!("\\c for c in U+{:04X}..", block));
    case.nontrivial = true;
    for v in block..block + 256 {
        let c = match std::char::from_u32(v) {
            Some(c) => c,
            None => continue,
        };
        for t in &[format!("'\\{}'", c), format!("'{}'", c), format!("\"\\u{{{:X}}}\"", v)] {
            case.subcases += 1;
            if let Some(d) = diff(&chars(t), &[true; 4]) {
                if d.contains("IllegalChar") && !known_chars(&chars(t)) {
                    continue;
                }
                case.set_input(format!("{:?}", t));
                case.fail(d);
                return;
            }
        }
    }
}

// ------------------------------------------------------------------ C07

fn c07_regexps(src: &mut Src, case: &mut Case) {
    let r = lexgen::regexp(src);
    let follow = *src.pick(&["", " ", ";", "/", ".test", "\n", "["]);
    let text = format!("{}{}", r.text, follow);
    case.set_input(format!("{:?}", text));
    case.nontrivial = r.text.contains('\\') || r.text.contains('[');
    if r.text.contains('[') {
        case.class("class or bracket");
    }
    let l = lexdrv::lex(&chars(&text), |i| i > 0);
    match l.toks.first() {
        Some(t) if tok_dump(&t.value) == r.dump && t.location.end.offset as usize == r.text.chars().count() => {}
        other => case.fail(format!("expected {}, got {:?} {:?}", r.dump, other.map(|t| tok_dump(&t.value)), l.err)),
    }
}
static C07_ALPHA: &[char] = &['/', '\\', '[', ']', 'a', '*', '\n', '\r', '\u{2028}', '\u{2029}', 'g', '^', '-', ' ', '(', '{'];
fn first_token(cs: &[char], op: bool, case: &mut Case) {
    let exp = Ref::new(cs).next(op);
    let got = lexdrv::lexer(cs).read_token(op);
    match (exp, got) {
        (Ok(e), Ok(t)) => {
            let d = tok_dump(&t.value);
            if !reflex::dump_matches(&e.dump, &d) || p3(&t.location.end) != posn(cs, e.end) {
                case.fail(format!("got {} up to {}, expected {} up to {}", d, t.location.end.offset, e.dump, e.end));
            }
        }
        (Err(e), Err(g)) => {
            let d = tok::err_dump(&g);
            case.check(e.allows(&d), || format!("error {}, expected {:?}", d, e.names));
        }
        (Ok(e), Err(g)) => case.fail(format!("error {}, expected {}", tok::err_dump(&g), e.dump)),
        (Err(e), Ok(t)) => case.fail(format!("got {}, expected error {:?}", tok_dump(&t.value), e.names)),
    }
}
fn c07_any(src: &mut Src, case: &mut Case) {
    let mut t = String::from("/");
    for _ in 0..src.count(6, 20) {
        if src.chance(1, 10) {
            t.push(lexgen::ch(src, false));
        } else {
            t.push(*src.pick(C07_ALPHA));
        }
    }
    if t.starts_with("//") || t.starts_with("/*") {
        t.insert(1, 'a');
    }
    case.set_input(format!("{:?}", t));
    case.nontrivial = t.len() > 3;
    first_token(&chars(&t), false, case);
}
fn c07_short(src: &mut Src, case: &mut Case) {
    let n = C07_ALPHA.len() as u64;
    let mut i = src.below(n * n * n);
    let mut cs = vec!['/'];
    for _ in 0..3 {
        cs.push(C07_ALPHA[(i % n) as usize]);
        i /= n;
    }
    case.set_input(format!("{:?} and two more characters", cs.iter().collect::<String>()));
    case.nontrivial = true;
    if cs[1] == '/' || cs[1] == '*' {
        return;
    }
    for &d in C07_ALPHA {
        cs.push(d);
        for &e in C07_ALPHA {
            cs.push(e);
            case.subcases += 1;
            first_token(&cs, false, case);
            if case.failed() {
                case.set_input(format!("{:?}", cs.iter().collect::<String>()));
                return;
            }
            cs.pop();
        }
        cs.pop();
    }
}

// ------------------------------------------------------------------ C08

fn c08_layouts(src: &mut Src, case: &mut Case) {
    let lx = lexgen::lexemes(src, 8);
    let a = Layout::new(src, lx.clone());
    let b = Layout::new(src, lx);
    case.set_input(format!("{:?} and {:?}", a.text(), b.text()));
    let mut seen = vec![];
    for l in &[&a, &b] {
        let cs = chars(&l.text());
        let ops = l.ops();
        let r = lexdrv::lex(&cs, |i| ops.get(i).cloned().unwrap_or(true));
        let exp = l.expected();
        let got: Vec<(String, bool)> = r.toks.iter().map(|t| (tok_dump(&t.value), t.newline)).collect();
        if r.err.is_some() || got.len() != exp.len() {
            case.fail(format!("{:?}: {} tokens and {:?}, expected {}", l.text(), got.len(), r.err, exp.len()));
            return;
        }
        for (g, e) in got.iter().zip(&exp) {
            if g.0 != e.dump {
                case.fail(format!("{:?}: got {}, expected {}", l.text(), g.0, e.dump));
            }
            if g.1 != e.newline {
                case.fail(format!("{:?}: newline flag of {} at {} is {}, expected {}", l.text(), g.0, e.start, g.1, e.newline));
            }
        }
        seen.push(got.into_iter().map(|g| g.0).collect::<Vec<_>>());
    }
    case.check(seen[0] == seen[1], || "the two layouts give different tokens");
    case.nontrivial = a.text() != b.text();
    for g in a.gaps.iter().chain(&b.gaps) {
        for bit in g {
            case.class(match *bit {
                lexgen::Bit::Space(c) if c.is_ascii() => "ASCII space",
                lexgen::Bit::Space(_) => "non-ASCII space",
                lexgen::Bit::Nl(_) => "line terminator",
                lexgen::Bit::Line(ref s) if s.starts_with('<') => "HTML open comment",
                lexgen::Bit::Line(_) => "line comment",
                lexgen::Bit::Block(ref s) if s.chars().any(reflex::is_nl) => "block comment with line terminator",
                lexgen::Bit::Block(_) => "block comment",
                lexgen::Bit::Close(_) => "HTML close comment",
            });
        }
    }
}
/// Every white space character and line terminator, on its own between two tokens.
fn c08_each(src: &mut Src, case: &mut Case) {
    let n = reflex::SPACES.len() + reflex::NEWLINES.len();
    let i = src.below(n as u64) as usize;
    let (s, nl) = if i < reflex::SPACES.len() { (reflex::SPACES[i].to_string(), false) } else { (reflex::NEWLINES[i - reflex::SPACES.len()].to_string(), true) };
    case.set_input(format!("{:?}", s));
    case.nontrivial = true;
    for (a, b) in &[("a", "b"), ("1", "2"), ("'x'", "in"), ("+", "+"), ("", "a"), ("a", ""), ("//c", ""), ("/*", "*/a")] {
        let t = format!("{}{}{}", a, s, b);
        case.subcases += 1;
        if let Some(d) = diff(&chars(&t), &[true; 4]) {
            case.set_input(format!("{:?}", t));
            case.fail(d);
            return;
        }
    }
    let _ = nl;
}
/// Arbitrary sequences of comment openers and closers.
fn c08_comments(src: &mut Src, case: &mut Case) {
    let mut t = String::new();
    for _ in 0..1 + src.count(6, 16) {
        t.push_str(src.pick(&["-->", "--", "->", ">", "<!--", "<!-", "<!", "!--", "-", "/*", "*/", "*", "//", "a", " ", "\n", "\r\n", "\u{2028}", "\u{a0}", "/**/", "/*\n*/", "/* x */", ";"]));
    }
    case.set_input(format!("{:?}", t));
    case.nontrivial = t.contains("--") || t.contains("/*");
    if let Some(d) = diff(&chars(&t), &[true; 40]) {
        case.fail(d);
    }
}

// ------------------------------------------------------------------ C09

fn c09_history(src: &mut Src, case: &mut Case) {
    let lx = lexgen::lexemes(src, 10);
    let l = Layout::new(src, lx);
    let text = if src.chance(1, 5) { lexgen::mutate(src, &l.text(), false) } else { l.text() };
    let cs = chars(&text);
    let mut lexer = lexdrv::lexer(&cs);
    let mut reference = Ref::new(&cs);
    // the model: what has been lexed but not consumed, front first
    let mut queue: VecDeque<(String, Option<(usize, usize)>, bool)> = VecDeque::new();
    // tokens the client holds and may put back
    let mut held: Vec<(Token, (String, Option<(usize, usize)>, bool))> = vec![];
    let mut log = String::new();
    let known = known_chars(&cs);
    if !known {
        case.set_input(format!("{:?}", text));
        return;
    }
    let steps = 4 + src.count(20, 60);
    let (mut peeks, mut unreads) = (0, 0);
    for _ in 0..steps {
        let op = src.bool();
        let choice = src.weighted(&[4, 2, 4, 2, 1, 3, 1]);
        let name = ["peek", "repeek", "read", "reread", "skip", "unread", "unread-old"][choice];
        // lexing on demand
        let lexes = (choice == 0 || choice == 2 || choice == 4) && queue.is_empty();
        if lexes {
            match reference.next(op) {
                Ok(t) => queue.push_back((t.dump, Some((t.start, t.end)), t.newline)),
                Err(e) => {
                    log.push_str(&format!(" {}({})", name, op));
                    let r = match choice {
                        0 => lexer.peek_token(op).map(|_| ()),
                        2 => lexer.read_token(op).map(|_| ()),
                        _ => lexer.skip_token(op),
                    };
                    match r {
                        Ok(()) => case.fail(format!("after{}: expected error {:?}", log, e.names)),
                        Err(g) => {
                            let d = tok::err_dump(&g);
                            case.check(e.allows(&d), || format!("after{}: error {}, expected {:?}", log, d, e.names));
                        }
                    }
                    case.class("ended in an error");
                    break;
                }
            }
        }
        let same = |t: &Token, m: &(String, Option<(usize, usize)>, bool)| -> bool {
            let (s, e) = m.1.unwrap();
            reflex::dump_matches(&m.0, &tok_dump(&t.value)) && t.newline == m.2 && p3(&t.location.start) == posn(&cs, s) && p3(&t.location.end) == posn(&cs, e)
        };
        match choice {
            0 => {
                log.push_str(&format!(" peek({})", op));
                peeks += 1;
                let t = lexer.peek_token(op).map(|t| t.clone());
                match t {
                    Ok(ref t) if same(t, &queue[0]) => {}
                    other => {
                        case.fail(format!("after{}: got {:?}, expected {:?}", log, other, queue[0]));
                        break;
                    }
                }
            }
            1 if !queue.is_empty() => {
                log.push_str(" repeek");
                let t = lexer.repeek_token().clone();
                if !same(&t, &queue[0]) {
                    case.fail(format!("after{}: got {:?}, expected {:?}", log, t, queue[0]));
                    break;
                }
            }
            2 => {
                log.push_str(&format!(" read({})", op));
                let m = queue.pop_front().unwrap();
                match lexer.read_token(op) {
                    Ok(t) => {
                        if !same(&t, &m) {
                            case.fail(format!("after{}: got {:?}, expected {:?}", log, t, m));
                            break;
                        }
                        held.push((t, m));
                    }
                    Err(e) => {
                        case.fail(format!("after{}: got {:?}, expected {:?}", log, e, m));
                        break;
                    }
                }
            }
            3 if !queue.is_empty() => {
                log.push_str(" reread");
                let m = queue.pop_front().unwrap();
                let t = lexer.reread_token();
                if !same(&t, &m) {
                    case.fail(format!("after{}: got {:?}, expected {:?}", log, t, m));
                    break;
                }
                held.push((t, m));
            }
            4 => {
                log.push_str(&format!(" skip({})", op));
                queue.pop_front();
                if let Err(e) = lexer.skip_token(op) {
                    case.fail(format!("after{}: got {:?}", log, e));
                    break;
                }
            }
            5 | 6 if !held.is_empty() && queue.len() < 2 => {
                let k = if choice == 5 { held.len() - 1 } else { src.below(held.len() as u64) as usize };
                let (t, m) = held.remove(k);
                log.push_str(&format!(" unread({})", m.0));
                unreads += 1;
                lexer.unread_token(t);
                queue.push_front(m);
            }
            _ => {}
        }
    }
    case.set_input(format!("{:?}:{}", text, log));
    if unreads > 0 {
        case.class("put back");
    }
    case.nontrivial = peeks > 0 && unreads > 0;
}

// ------------------------------------------------------------------ C10

fn c10_mutants(src: &mut Src, case: &mut Case) {
    let mut parts = vec![];
    for _ in 0..src.count(2, 4) {
        parts.push(lexgen::lexeme(src).text);
    }
    let l = lexgen::lexeme(src);
    parts.push(lexgen::mutate(src, &l.text, false));
    case.class(l.kind);
    for _ in 0..src.count(1, 3) {
        parts.push(lexgen::lexeme(src).text);
    }
    let sep = *src.pick(&[" ", "", "\n", " /**/ "]);
    let text = parts.join(sep);
    let op = ops(src);
    case.set_input(format!("{:?} modes {:?}", text, op));
    c10_compare(&text, &op, case);
}
fn c10_compare(text: &str, op: &[bool], case: &mut Case) {
    let cs = chars(text);
    if !known_chars(&cs) {
        return;
    }
    let real = lexdrv::lex(&cs, |i| op_at(op, i));
    let (rt, re) = reflex::lex_all(&cs, |i| op_at(op, i));
    if let Some(ref e) = re {
        case.nontrivial = true;
        case.class(format!("error {}", e.names[0].split(' ').next().unwrap()));
    }
    if let Some(d) = diff_lexed(&cs, &real, &rt, &re) {
        case.fail(d);
    }
}
fn c10_soup(src: &mut Src, case: &mut Case) {
    let t = lexgen::soup(src, false);
    let op = ops(src);
    case.set_input(format!("{:?} modes {:?}", t, op));
    c10_compare(&t, &op, case);
}
/// Each defect by construction, with the error it must be reported as.
fn c10_built(src: &mut Src, case: &mut Case) {
    let u = |c: char| format!("U+{:04X}", c as u32);
    let (text, expect): (String, String);
    let nl = *src.pick(&['\n', '\r', '\u{2028}', '\u{2029}']);
    let bad = *src.pick(&['g', 'z', '!', ' ', '\n', '"', '\'', '\u{e9}', '.', '_']);
    let tail = |src: &mut Src, b: Option<char>| -> String {
        match b {
            None => String::new(),
            Some(c) => format!("{}{}", c, if src.bool() { "" } else { " x" }),
        }
    };
    let end = src.bool();
    let at = if end { None } else { Some(bad) };
    let eu = |c: Option<char>| match c {
        None => "end".to_string(),
        Some(c) => u(c),
    };
    match src.below(16) {
        0 => {
            let c = *src.pick(&['#', '@', '`', '\u{0}', '\u{7}', '\u{b7}', '\u{d7}', '\u{200b}', '\u{2190}', '\u{1f600}', '\u{300}', '\u{ff10}', '\u{660}']);
            text = c.to_string();
            expect = format!("IllegalChar {}", u(c));
        }
        1 => {
            let r = *src.pick(&["0x", "0X"]);
            text = format!("{}{}", r, tail(src, at));
            expect = if end { "MissingHexDigits".into() } else { format!("InvalidDigit {}", u(bad)) };
        }
        2 => {
            let r = *src.pick(&["0o", "0O"]);
            let c = *src.pick(&['8', '9', 'a', ' ', '.']);
            text = format!("{}{}", r, tail(src, if end { None } else { Some(c) }));
            expect = if end { "MissingOctalDigits".into() } else { format!("InvalidDigit {}", u(c)) };
        }
        3 => {
            let r = *src.pick(&["0b", "0B"]);
            let c = *src.pick(&['2', '9', 'a', ' ', '.']);
            text = format!("{}{}", r, tail(src, if end { None } else { Some(c) }));
            expect = if end { "MissingBinaryDigits".into() } else { format!("InvalidDigit {}", u(c)) };
        }
        4 => {
            let r = *src.pick(&["1e", "0E", "1.5e", ".5E+", "1.e-", "9e+"]);
            text = format!("{}{}", r, tail(src, at));
            expect = format!("MissingExponent {}", eu(at));
        }
        5 => {
            let n = lexgen::number(src);
            let hexish = n.kind == "hex";
            let c = if hexish { *src.pick(&['g', 'z', '$', '_', '\u{3c0}']) } else { *src.pick(&['i', 'a', '$', '_', '\u{3c0}', 'n', '\\']) };
            if c == '\\' {
                text = format!("{}\\u0061", n.text);
            } else {
                text = format!("{}{}", n.text, c);
            }
            expect = format!("IdAfterNumber {}", u(c));
        }
        6 => {
            let (t, c) = *src.pick(&[("0b12", '2'), ("0o78", '8'), ("0b09", '9'), ("0B112 ", '2'), ("0O19;", '9')]);
            text = t.into();
            expect = format!("DigitAfterNumber {}", u(c));
        }
        7 => {
            let v = lexgen::string_value(src);
            let mut s = lexgen::spell_string(src, &v, &mut vec![], true);
            s.pop();
            // a trailing octal escape or similar stays complete: only the closing quote is missing
            if end {
                text = s;
                expect = "UnterminatedString end".into();
            } else {
                // a CR continuation would take a LF with it
                let nl = if s.ends_with('\r') { '\u{2029}' } else { nl };
                text = format!("{}{}x", s, nl);
                expect = format!("UnterminatedString {}", u(nl));
            }
        }
        8 => {
            let body: String = lexgen::regexp_body(src);
            if end {
                text = format!("/{}", body);
                expect = "UnterminatedRegExp end".into();
            } else {
                text = format!("/{}{}/", body, nl);
                expect = format!("UnterminatedRegExp {}", u(nl));
            }
        }
        9 => {
            let open = *src.pick(&["/a\\", "/a[", "/[b\\", "/[^/", "/(\\"]);
            if end {
                text = open.into();
                expect = "UnterminatedRegExp end".into();
            } else {
                text = format!("{}{}]/", open, nl);
                expect = format!("UnterminatedRegExp {}", u(nl));
            }
        }
        10 => {
            let t: String = (0..src.usize(0, 6)).map(|_| lexgen::ch(src, true)).collect();
            text = format!("/*{}", t.replace("*/", "* /").trim_end_matches('*').replace('/', "-"));
            expect = "UnterminatedComment".into();
        }
        11 => {
            let c = if end { None } else { Some(*src.pick(&['a', 'U', 'x', '{', ' ', '\n', '0'])) };
            let pre = *src.pick(&["", "a", "if"]);
            text = format!("{}\\{}", pre, tail(src, c));
            expect = format!("IncompleteWordEscape {}", eu(c));
        }
        12 => {
            let c = *src.pick(&['g', 'z', ' ', '}', '-', '\n']);
            let open = *src.pick(&["\\u", "\\u0", "\\u00e", "a\\u{", "'\\u", "'\\x", "'\\xf", "'\\u{", "'\\u004", "'\\u{ab"]);
            let c = if open.ends_with('b') && c == '}' { 'g' } else { c };
            text = format!("{}{}", open, c);
            expect = format!("InvalidDigit {}", u(c));
        }
        13 => {
            let v = 0x110000 + src.below(1 << 20) * *src.pick(&[1u64, 3, 4096, 4097]);
            let q = *src.pick(&["", "'", "\"", "a"]);
            text = format!("{}\\u{{{:x}}}{}", q, v, if q == "a" { "" } else { q });
            expect = "IllegalUnicode *".into();
        }
        14 => {
            let v = *src.pick(&[0x20u32, 0x2d, 0x40, 0xd7, 0xd800, 0xdfff, 0x2028, 0x1f600, 0x5c, 0x2b]);
            let pre = *src.pick(&["", "a"]);
            text = if v < 0x10000 && src.bool() { format!("{}\\u{:04x}", pre, v) } else { format!("{}\\u{{{:x}}}", pre, v) };
            expect = format!("IllegalUnicode {:X}", v);
        }
        _ => {
            let (w, _) = *src.pick(tok::RESERVED);
            let k = src.below(w.len() as u64) as usize;
            let c = w.as_bytes()[k] as char;
            text = format!("{}{}{}", &w[..k], lexgen::u_escape(src, c), &w[k + 1..]);
            expect = format!("ReservedWordWithEscapes {}", w);
        }
    }
    let lead = *src.pick(&["", "x ", "( ", "1;\n"]);
    let full = format!("{}{}", lead, text);
    case.set_input(format!("{:?}", full));
    case.class(expect.split(' ').next().unwrap().to_string());
    case.nontrivial = true;
    let cs = chars(&full);
    let slash = text.starts_with('/');
    let before = [0, 1, 1, 2][["", "x ", "( ", "1;\n"].iter().position(|l| *l == lead).unwrap()];
    let r = lexdrv::lex(&cs, |i| !(slash && i == before));
    let got = r.err.as_ref().map(tok::err_dump);
    let ok = match got {
        Some(ref g) => reflex::RErr { names: vec![expect.clone()] }.allows(g) && r.toks.len() == before,
        None => false,
    };
    case.check(ok, || format!("expected {} after {} tokens, got {:?} after {}", expect, before, got, r.toks.len()));
    // the reference must agree with the construction (a check of the reference itself)
    let (rt, re) = reflex::lex_all(&cs, |i| !(slash && i == before));
    assert!(
        re.as_ref().map_or(false, |e| e.names.iter().any(|n| *n == expect) && rt.len() == before),
        "reference lexer gives {:?} for {:?}, expected {}",
        re,
        full,
        expect
    );
}

pub fn checks() -> Vec<Check> {
    let a_ref = "the reference lexer (harness/src/reflex.rs) was written from the ECMAScript lexical grammar with Annex B; characters unassigned in Unicode 9 are not generated where their class matters";
    vec![
        Check {
            id: "C01",
            rule: "Random texts of characters, lexemes, broken lexemes, fragments and trivia, all prefixes of well-formed texts, and all texts of four characters over an alphabet of significant ones; operator mode chosen per token. Non-trivial: more than one character or at least one token.",
            subs: vec![
                sub("soup", c01_soup, 1_200_000, 6_000_000),
                sub("characters", c01_raw, 600_000, 3_000_000),
                sub("prefixes", c01_prefix, 40_000, 200_000),
                enumerate("short texts", c01_short, (C01_ALPHA.len() as u64).pow(3)),
            ],
            assumptions: vec!["a reader that keeps asking for input 100,000 times after its end is counted as not progressing"],
        },
        Check {
            id: "C02",
            rule: "Sequences of generated lexemes separated by generated trivia, with positions known by construction; and arbitrary text, where the locations of whatever tokens come out are checked against the text. Non-trivial: at least two tokens and a line terminator.",
            subs: vec![sub("layouts", c02_layout, 600_000, 2_000_000), sub("soup", c02_soup, 600_000, 2_000_000), enumerate("far", c02_far, 14 * 12)],
            assumptions: vec![a_ref],
        },
        Check {
            id: "C03",
            rule: "All texts of three and four characters over the punctuator characters (plus a digit, a letter and a space) in both operator modes against the reference lexer, every punctuator before various followers, and long random runs. Non-trivial: the text holds at least two punctuators (every enumerated text counts).",
            subs: vec![
                enumerate("each", c03_each, tok::PUNCS.len() as u64),
                enumerate("short texts", c03_short, (C03_ALPHA.len() as u64).pow(3)),
                sub("runs", c03_runs, 600_000, 3_000_000),
            ],
            assumptions: vec![a_ref],
        },
        Check {
            id: "C04",
            rule: "Every assigned Unicode character at the start of a word, inside one, and as an escape in both places; every reserved and contextual word with each character escaped, changed or inserted; random words and random escape spellings. Non-trivial: the word is reserved, contextual, escaped or not ASCII (every swept block counts).",
            subs: vec![
                enumerate("table", c04_table, (tok::RESERVED.len() + tok::ATOMS.len()) as u64),
                enumerate("sweep", c04_sweep, 0x110000 / 64),
                sub("words", c04_words, 800_000, 3_000_000),
                sub("escapes", c04_escapes, 600_000, 3_000_000),
            ],
            assumptions: vec![a_ref, "ID_Start and ID_Continue as of Unicode 9.0, the version the repository's ucd crate implements"],
        },
        Check {
            id: "C05",
            rule: "Numeric literals built from every form with known source and value (the value by exact integer arithmetic for radix forms, by a differently normalised decimal conversion, or chosen first and then spelled), random numeric text and all five-character texts over a numeric alphabet against the reference. Non-trivial: more than one character.",
            subs: vec![sub("literals", c05_numbers, 1_000_000, 4_000_000), sub("texts", c05_any, 800_000, 4_000_000), enumerate("short texts", c05_short, (C05_ALPHA.len() as u64).pow(2))],
            assumptions: vec![a_ref, "the Rust standard library's decimal to double conversion is correctly rounded"],
        },
        Check {
            id: "C06",
            rule: "Strings spelled from a chosen value with every escape form, random escape text, and every Unicode character raw, after a backslash and as a \\u{} escape. Non-trivial: an escape is present.",
            subs: vec![sub("spelled", c06_strings, 800_000, 4_000_000), sub("texts", c06_any, 1_000_000, 5_000_000), enumerate("characters", c06_escape, 0x110000 / 256)],
            assumptions: vec![a_ref, "the value of a string with an unpaired surrogate is not compared"],
        },
        Check {
            id: "C07",
            rule: "Regular expression literals built with classes, escapes and flags, random bodies, and all bodies of five characters over the significant ones. Non-trivial: a class or a backslash (built), more than three characters (random).",
            subs: vec![sub("built", c07_regexps, 600_000, 3_000_000), sub("texts", c07_any, 800_000, 4_000_000), enumerate("short texts", c07_short, (C07_ALPHA.len() as u64).pow(3))],
            assumptions: vec![a_ref],
        },
        Check {
            id: "C08",
            rule: "The same lexemes under two independently generated layouts of trivia (spaces, line terminators, comments of all kinds); every white space character alone; random sequences of comment delimiters. Non-trivial: the two layouts differ, or comment delimiters are present.",
            subs: vec![
                sub("layouts", c08_layouts, 500_000, 2_000_000),
                enumerate("each", c08_each, (reflex::SPACES.len() + reflex::NEWLINES.len()) as u64),
                sub("comments", c08_comments, 800_000, 4_000_000),
            ],
            assumptions: vec![a_ref],
        },
        Check {
            id: "C09",
            rule: "Histories of up to 64 peek, repeek, read, reread, skip and put-back operations with random operator flags over generated text, against a queue over the reference lexer. At most two tokens are pending. Non-trivial: the history both peeks and puts back.",
            subs: vec![sub("histories", c09_history, 600_000, 3_000_000)],
            assumptions: vec![a_ref, "clients keep to the lookahead bound of two tokens and call repeek and reread only with a token pending, as the lexer asserts"],
        },
        Check {
            id: "C10",
            rule: "Malformed lexemes built for each kind of defect with the error they must give, mutations of well-formed lexemes among well-formed ones, and arbitrary text, against the reference lexer. Non-trivial: the text has a malformed lexeme.",
            subs: vec![sub("built", c10_built, 600_000, 2_000_000), sub("mutants", c10_mutants, 800_000, 4_000_000), sub("soup", c10_soup, 600_000, 3_000_000)],
            assumptions: vec![a_ref],
        },
    ]
}
