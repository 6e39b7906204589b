//! Generators of lexemes (with the token they must lex to, by construction) and of trivia.
use crate::engine::Src;
use crate::reflex::{self, NEWLINES, SPACES};
use crate::tok::{ATOMS, PUNCS, RESERVED};

#[derive(Clone, Debug)]
pub struct Lexeme {
    pub text: String,
    pub dump: String,
    pub kind: &'static str,
    /// operator mode this lexeme needs (None: either)
    pub op: Option<bool>,
}

// ---------------------------------------------------------------- characters

static INTERESTING: &[char] = &[
    'a', 'b', 'e', 'f', 'n', 'r', 't', 'u', 'v', 'x', 'z', 'A', 'E', 'F', 'X', '0', '1', '7', '8', '9', '_', '$', ' ', '\t', '\n', '\r', '\\', '\'', '"',
    '/', '*', '<', '!', '-', '>', '=', '.', '{', '}', '[', ']', '(', ')', ';', ',', '+', '#', '@', '`', '%', '&', '|', '^', '~', '?', ':', '\u{0}', '\u{7f}',
    '\u{85}', '\u{a0}', '\u{aa}', '\u{b5}', '\u{d7}', '\u{e9}', '\u{300}', '\u{3c0}', '\u{640}', '\u{1680}', '\u{2007}', '\u{2008}', '\u{200b}', '\u{200c}',
    '\u{200d}', '\u{2028}', '\u{2029}', '\u{202f}', '\u{203f}', '\u{205f}', '\u{2118}', '\u{3000}', '\u{4e2d}', '\u{feff}', '\u{ff10}', '\u{fffd}',
    '\u{10400}', '\u{1d7d8}', '\u{1f600}', '\u{20000}', '\u{e0100}', '\u{10ffff}',
];

/// Any scalar value, biased to the ones that matter; unassigned ones only if `any`.
pub fn ch(src: &mut Src, any: bool) -> char {
    loop {
        let c = match src.weighted(&[6, 4, 2, 1, 1]) {
            0 => *src.pick(INTERESTING),
            1 => (0x20 + src.below(95) as u8) as char,
            2 => char::from_u32(src.below(0x3000) as u32).unwrap_or('a'),
            3 => char::from_u32(src.below(0x20000) as u32).unwrap_or('b'),
            _ => char::from_u32(src.below(0x110000) as u32).unwrap_or('c'),
        };
        if any || (c as u32) < 0x80 || reflex::assigned(c) {
            return c;
        }
        // unassigned character: fall back without looping on a fixed choice
        let d = *src.pick(&['a', '\u{e9}', '\u{1f600}']);
        return d;
    }
}

fn table_char(src: &mut Src, t: &'static [(u32, u32)]) -> char {
    let (a, b) = *src.pick(t);
    char::from_u32(a + src.below((b - a + 1) as u64) as u32).unwrap_or('a')
}
pub fn id_start_char(src: &mut Src) -> char {
    match src.weighted(&[8, 1, 1, 3]) {
        0 => (b'a' + src.below(26) as u8) as char,
        1 => (b'A' + src.below(26) as u8) as char,
        2 => *src.pick(&['$', '_']),
        _ => table_char(src, crate::unitab::ID_START9),
    }
}
pub fn id_part_char(src: &mut Src) -> char {
    match src.weighted(&[8, 2, 2, 1, 3]) {
        0 => (b'a' + src.below(26) as u8) as char,
        1 => (b'0' + src.below(10) as u8) as char,
        2 => (b'A' + src.below(26) as u8) as char,
        3 => *src.pick(&['$', '_', '\u{200c}', '\u{200d}']),
        _ => table_char(src, crate::unitab::ID_CONTINUE9),
    }
}

fn hex(src: &mut Src, v: u32, width: usize) -> String {
    let s = format!("{:0w$x}", v, w = width);
    s.chars().map(|c| if src.chance(1, 3) { c.to_ascii_uppercase() } else { c }).collect()
}

/// A \u escape denoting c (one escape, so \uXXXX only within the BMP).
pub fn u_escape(src: &mut Src, c: char) -> String {
    if (c as u32) < 0x10000 && src.chance(1, 2) {
        format!("\\u{}", hex(src, c as u32, 4))
    } else {
        let pad = if src.chance(1, 3) { src.usize(0, 14) } else { 0 };
        format!("\\u{{{}{}}}", "0".repeat(pad), hex(src, c as u32, 1))
    }
}

// ---------------------------------------------------------------- words

pub fn near_word(src: &mut Src) -> String {
    let base = if src.bool() { src.pick(RESERVED).0 } else { src.pick(ATOMS).0 };
    let mut cs: Vec<char> = base.chars().collect();
    match src.below(6) {
        0 => cs.push(id_part_char(src)),
        1 => {
            cs.pop();
        }
        2 => {
            let i = src.below(cs.len() as u64) as usize;
            cs[i] = cs[i].to_ascii_uppercase();
        }
        3 => cs.insert(0, id_start_char(src)),
        4 => {
            let i = src.below(cs.len() as u64) as usize;
            cs[i] = id_start_char(src);
        }
        _ => {
            let i = src.below(cs.len() as u64) as usize;
            let c = cs[i];
            cs.insert(i, c);
        }
    }
    cs.into_iter().collect()
}

/// How long a thing is that may be of any length: nearly always short.
fn rarely_long(src: &mut Src) -> usize {
    if src.chance(1, 60) { src.usize(30, 300) } else { 0 }
}

pub fn word_text(src: &mut Src) -> String {
    let n = rarely_long(src);
    if n > 0 {
        return (0..n).map(|_| (b'a' + src.below(26) as u8) as char).collect();
    }
    match src.weighted(&[3, 2, 2, 3, 2]) {
        0 => (0..src.usize(1, 6)).map(|_| (b'a' + src.below(26) as u8) as char).collect(),
        1 => src.pick(RESERVED).0.to_string(),
        2 => src.pick(ATOMS).0.to_string(),
        3 => {
            let mut s = String::new();
            s.push(id_start_char(src));
            for _ in 0..src.count(3, 12) {
                s.push(id_part_char(src));
            }
            s
        }
        _ => near_word(src),
    }
}

/// Writes a word, each character raw or escaped.
pub fn spell_word(src: &mut Src, text: &str, escapes: bool) -> (String, bool) {
    let mode = if escapes { src.weighted(&[3, 1, 1]) } else { 0 };
    let n = text.chars().count();
    let one = if mode == 1 { src.below(n as u64) as usize } else { 0 };
    let mut out = String::new();
    let mut escaped = false;
    for (i, c) in text.chars().enumerate() {
        let esc = match mode {
            0 => false,
            1 => i == one,
            _ => src.bool(),
        };
        if esc {
            escaped = true;
            out.push_str(&u_escape(src, c));
        } else {
            out.push(c);
        }
    }
    (out, escaped)
}

pub fn word_dump(text: &str, escaped: bool) -> String {
    if RESERVED.iter().any(|p| p.0 == text) {
        format!("kw {}", text)
    } else if !escaped && ATOMS.iter().any(|p| p.0 == text) {
        format!("atom {}", text)
    } else {
        format!("id {:?}", text)
    }
}

/// A well-formed word (reserved words never escaped).
pub fn word(src: &mut Src) -> Lexeme {
    let mut text = word_text(src);
    if text.is_empty() || !reflex::id_start(text.chars().next().unwrap()) {
        text = format!("a{}", text);
    }
    let reserved = RESERVED.iter().any(|p| p.0 == text);
    let (spelled, escaped) = spell_word(src, &text, !reserved);
    let kind = if reserved {
        "reserved"
    } else if ATOMS.iter().any(|p| p.0 == text) {
        if escaped { "contextual-escaped" } else { "contextual" }
    } else if escaped {
        "identifier-escaped"
    } else if text.is_ascii() {
        "identifier"
    } else {
        "identifier-unicode"
    };
    Lexeme { dump: word_dump(&text, escaped), text: spelled, kind, op: None }
}

// ---------------------------------------------------------------- numbers

fn digit_run(src: &mut Src, radix: u32, min: usize) -> String {
    let n = match src.weighted(&[6, 3, 1]) {
        0 => src.usize(min, 4),
        1 => src.usize(min, 20),
        _ => src.usize(min, 60),
    };
    let style = src.below(4);
    (0..n)
        .map(|i| {
            let d = match style {
                0 | 1 => src.below(radix as u64) as u32,
                // long runs of 0/1/max digits hit rounding ties
                2 => *src.pick(&[0, radix - 1, 0, 1]),
                _ => if i == 0 || i + 1 == n { 1 } else { *src.pick(&[0, 0, 0, 0, radix / 2]) },
            };
            let c = std::char::from_digit(d, radix).unwrap();
            if src.chance(1, 4) { c.to_ascii_uppercase() } else { c }
        })
        .collect()
}

pub fn number(src: &mut Src) -> Lexeme {
    let (text, kind, value);
    match src.weighted(&[4, 4, 2, 2, 2, 1, 3]) {
        0 => {
            let d = digit_run(src, 10, 1);
            let d = if d.len() > 1 { let t = d.trim_start_matches('0'); if t.is_empty() { "0".to_string() } else { t.to_string() } } else { d };
            let e = exponent(src);
            kind = if e.is_empty() { "int" } else { "int-exp" };
            text = format!("{}{}", d, e);
            value = reflex::decimal_value(&text);
        }
        1 => {
            let form = src.below(3);
            let i = if form == 1 { String::new() } else {
                let d = digit_run(src, 10, 1);
                let t = d.trim_start_matches('0');
                if t.is_empty() { "0".to_string() } else { t.to_string() }
            };
            let f = if form == 2 { String::new() } else { digit_run(src, 10, 1) };
            let e = exponent(src);
            kind = if e.is_empty() { "float" } else { "float-exp" };
            text = format!("{}.{}{}", i, f, e);
            value = reflex::decimal_value(&text);
        }
        k @ 2..=4 => {
            let (radix, letters, kd) = [(16, ["x", "X"], "hex"), (8, ["o", "O"], "oct"), (2, ["b", "B"], "bin")][k - 2];
            let d = if radix == 2 && src.bool() { (0..src.usize(50, 70)).map(|_| *src.pick(&['0', '1'])).collect() } else { digit_run(src, radix, 1) };
            text = format!("0{}{}", src.pick(&letters), d);
            kind = kd;
            value = reflex::radix_value(&d.chars().collect::<Vec<_>>(), radix);
        }
        5 => {
            let d = format!("0{}", digit_run(src, 8, 1));
            kind = "legacy-oct";
            value = reflex::radix_value(&d.chars().collect::<Vec<_>>(), 8);
            text = d;
        }
        _ => {
            // a chosen double in one of its decimal spellings: its value is known without any parsing
            let v = loop {
                let b = match src.below(4) {
                    0 => (src.below(1 << 53) as f64).to_bits(),
                    1 => src.below(1 << 62) << 1 & !(1 << 63),
                    2 => f64::to_bits(src.below(1 << 30) as f64 / 1024.0),
                    _ => src.below(1 << 52), // subnormal
                };
                let v = f64::from_bits(b);
                if v.is_finite() {
                    break v;
                }
            };
            let s = match src.below(3) {
                0 => format!("{}", v),
                1 => format!("{:e}", v),
                _ => format!("{:E}", v),
            };
            kind = match (s.contains('.'), s.contains(|c| c == 'e' || c == 'E')) {
                (false, false) => "int",
                (false, true) => "int-exp",
                (true, false) => "float",
                (true, true) => "float-exp",
            };
            text = s;
            value = v;
        }
    }
    // digits with a leading zero are another form; the constructions above avoid them except in legacy-oct
    Lexeme { dump: format!("num {} {} {:016x}", kind, text, value.to_bits()), text, kind, op: None }
}

fn exponent(src: &mut Src) -> String {
    if src.chance(1, 2) {
        return String::new();
    }
    let d = match src.weighted(&[4, 2, 1, 1]) {
        0 => src.below(40).to_string(),
        1 => src.below(400).to_string(),
        2 => format!("{}{}", "0".repeat(src.usize(1, 5)), src.below(330)),
        _ => digit_run(src, 10, 1),
    };
    format!("{}{}{}", src.pick(&["e", "E"]), src.pick(&["", "+", "-"]), d)
}

// ---------------------------------------------------------------- strings

/// Any spelling of c inside a string; `next` is the raw text that follows, so digit escapes can be kept apart.
fn string_char(src: &mut Src, c: char, quote: char, forms: &mut Vec<&'static str>) -> String {
    let v = c as u32;
    let mut opts: Vec<(&'static str, u32)> = vec![("raw", 6), ("u4", 2), ("ubrace", 2), ("identity", 1), ("hex", 1), ("octal", 1), ("single", 3)];
    opts.retain(|o| match o.0 {
        "raw" => c != quote && c != '\\' && !reflex::is_nl(c),
        // \c stands for c unless it means something else
        "identity" => !reflex::is_nl(c) && !"nrtbvfux01234567".contains(c),
        "hex" | "octal" => v < 256,
        "single" => "\n\r\t\u{8}\u{b}\u{c}".contains(c),
        _ => true,
    });
    let ws: Vec<u32> = opts.iter().map(|o| o.1).collect();
    let form = opts[src.weighted(&ws)].0;
    forms.push(form);
    match form {
        "raw" => c.to_string(),
        "identity" => format!("\\{}", c),
        "hex" => format!("\\x{}", hex(src, v, 2)),
        "octal" => {
            // three digits (or two from 4 on) never absorb a following digit; shorter forms are handled by the caller
            let w = if v >= 0o400 { unreachable!() } else if v >= 0o100 { 3 } else { src.usize(1, 3) };
            format!("\\{:0w$o}", v, w = w)
        }
        "single" => format!("\\{}", match c { '\n' => 'n', '\r' => 'r', '\t' => 't', '\u{8}' => 'b', '\u{b}' => 'v', _ => 'f' }),
        "u4" => {
            if v < 0x10000 {
                format!("\\u{}", hex(src, v, 4))
            } else {
                forms.push("surrogate-pair");
                let v = v - 0x10000;
                let (h, l) = (0xd800 + (v >> 10), 0xdc00 + (v & 0x3ff));
                let hs = if src.chance(1, 4) { format!("\\u{{{}}}", hex(src, h, 1)) } else { format!("\\u{}", hex(src, h, 4)) };
                let ls = if src.chance(1, 4) { format!("\\u{{{}}}", hex(src, l, 1)) } else { format!("\\u{}", hex(src, l, 4)) };
                format!("{}{}", hs, ls)
            }
        }
        _ => {
            let pad = if src.chance(1, 3) { src.usize(0, 14) } else { 0 };
            format!("\\u{{{}{}}}", "0".repeat(pad), hex(src, v, 1))
        }
    }
}

/// An octal escape that would absorb the digit after it.
fn open_octal(s: &str) -> bool {
    let d: Vec<char> = s.chars().skip(1).collect();
    s.starts_with('\\') && !d.is_empty() && d.iter().all(|c| c.is_digit(8)) && (d.len() < 2 || d.len() == 2 && d[0] <= '3')
}

pub fn spell_string(src: &mut Src, value: &str, forms: &mut Vec<&'static str>, continuations: bool) -> String {
    let quote = *src.pick(&['"', '\'']);
    let mut out = String::new();
    out.push(quote);
    let mut prev = String::new();
    for c in value.chars() {
        if continuations && src.chance(1, 12) {
            let nl = src.pick(NEWLINES);
            // a CR continuation directly before a raw LF cannot occur: raw LF is never written
            prev = format!("\\{}", nl);
            out.push_str(&prev);
            forms.push("continuation");
        }
        let mut s = string_char(src, c, quote, forms);
        if open_octal(&prev) && s.starts_with(|c: char| c.is_digit(8)) {
            s = format!("\\x{:02x}", c as u32);
        }
        out.push_str(&s);
        prev = s;
    }
    if continuations && src.chance(1, 12) {
        out.push_str(&format!("\\{}", src.pick(NEWLINES)));
        forms.push("continuation");
    }
    out.push(quote);
    out
}

pub fn string_value(src: &mut Src) -> String {
    let n = rarely_long(src);
    (0..if n > 0 { n } else { src.count(4, 20) }).map(|_| ch(src, true)).collect()
}

pub fn string(src: &mut Src, forms: &mut Vec<&'static str>) -> Lexeme {
    let value = string_value(src);
    let text = spell_string(src, &value, forms, true);
    Lexeme { dump: format!("str {:?} value {:?}", Some(&text), value), text, kind: "string", op: None }
}

// ---------------------------------------------------------------- regular expressions

fn regexp_plain(src: &mut Src) -> char {
    let c = ch(src, true);
    if reflex::is_nl(c) { 'n' } else { c }
}

pub fn regexp_body(src: &mut Src) -> String {
    let mut s = String::new();
    let n = 1 + src.count(4, 15);
    for i in 0..n {
        match src.weighted(&[6, 3, 3]) {
            0 => {
                let c = regexp_plain(src);
                if c == '/' || c == '\\' || c == '[' || (i == 0 && c == '*') {
                    s.push('a');
                } else {
                    s.push(c);
                }
            }
            1 => {
                s.push('\\');
                s.push(match src.below(3) { 0 => '/', 1 => *src.pick(&['\\', '[', ']', 'n', 'd']), _ => regexp_plain(src) });
            }
            _ => {
                s.push('[');
                for _ in 0..src.count(3, 8) {
                    match src.weighted(&[3, 2, 2]) {
                        0 => {
                            let c = regexp_plain(src);
                            s.push(if c == ']' || c == '\\' { '/' } else { c });
                        }
                        1 => s.push(*src.pick(&['/', '[', '^', '-', '*'])),
                        _ => {
                            s.push('\\');
                            s.push(match src.below(2) { 0 => *src.pick(&[']', '\\', '/', '[']), _ => regexp_plain(src) });
                        }
                    }
                }
                s.push(']');
            }
        }
    }
    s
}

pub fn regexp(src: &mut Src) -> Lexeme {
    let body = regexp_body(src);
    let flags: String = match src.weighted(&[3, 3, 1]) {
        0 => String::new(),
        1 => (0..src.usize(1, 3)).map(|_| *src.pick(&['g', 'i', 'm', 'u', 'y'])).collect(),
        _ => (0..src.usize(1, 4)).map(|_| id_part_char(src)).collect(),
    };
    Lexeme { text: format!("/{}/{}", body, flags), dump: format!("re {:?} flags {:?}", body, flags), kind: "regexp", op: Some(false) }
}

// ---------------------------------------------------------------- any lexeme

pub fn punct(src: &mut Src) -> Lexeme {
    let p = *src.pick(PUNCS);
    Lexeme { text: p.to_string(), dump: format!("punc {}", p), kind: "punctuator", op: if p.starts_with('/') { Some(true) } else { None } }
}

pub fn lexeme(src: &mut Src) -> Lexeme {
    match src.weighted(&[5, 5, 3, 3, 2]) {
        0 => punct(src),
        1 => word(src),
        2 => number(src),
        3 => string(src, &mut vec![]),
        _ => regexp(src),
    }
}

// ---------------------------------------------------------------- trivia

#[derive(Clone, Debug, PartialEq)]
pub enum Bit {
    Space(char),
    Nl(&'static str),
    /// // or <!-- with its text; needs a line terminator (or the end) after it
    Line(String),
    Block(String),
    /// --> with its text; only where the line is bare
    Close(String),
}

impl Bit {
    pub fn text(&self) -> String {
        match *self {
            Bit::Space(c) => c.to_string(),
            Bit::Nl(s) => s.to_string(),
            Bit::Line(ref s) | Bit::Block(ref s) | Bit::Close(ref s) => s.clone(),
        }
    }
    pub fn newline(&self) -> bool {
        match *self {
            Bit::Nl(_) => true,
            Bit::Block(ref s) => s.chars().any(reflex::is_nl),
            _ => false,
        }
    }
}

fn comment_text(src: &mut Src, newlines: bool) -> String {
    let mut s = String::new();
    let n = rarely_long(src);
    for _ in 0..if n > 0 { n } else { src.count(4, 12) } {
        if src.chance(1, 6) {
            s.push_str(src.pick(&["*", "/", "//", "/*", "<!--", "-->", "**", "'", "\"", "\\"]));
        } else if newlines && src.chance(1, 6) {
            s.push_str(src.pick(NEWLINES));
        } else {
            let c = ch(src, true);
            s.push(if reflex::is_nl(c) { ' ' } else { c });
        }
    }
    s
}

/// A run of trivia. `bare`: the line so far holds nothing but trivia. `last`: nothing follows.
/// `html`: HTML-like comments may be used. `newlines`: line terminators may be used.
pub fn trivia(src: &mut Src, mut bare: bool, last: bool, html: bool, newlines: bool, max: usize) -> Vec<Bit> {
    let n = src.count(1, max);
    let mut out: Vec<Bit> = vec![];
    for _ in 0..n {
        match src.weighted(&[6, if newlines { 3 } else { 0 }, if newlines || last { 2 } else { 0 }, 3, if html && (newlines || last) { 1 } else { 0 }]) {
            0 => {
                let c = *src.pick(SPACES);
                for _ in 0..1 + rarely_long(src) {
                    out.push(Bit::Space(c));
                }
            }
            1 => {
                let c = *src.pick(NEWLINES);
                for _ in 0..1 + rarely_long(src) {
                    out.push(Bit::Nl(c));
                }
                bare = true;
            }
            2 => {
                let open = if html && src.chance(1, 3) { "<!--" } else { "//" };
                out.push(Bit::Line(format!("{}{}", open, comment_text(src, false))));
                if !last || src.bool() {
                    if newlines {
                        out.push(Bit::Nl(*src.pick(NEWLINES)));
                        bare = true;
                    } else {
                        return out;
                    }
                } else {
                    return out;
                }
            }
            3 => {
                let mut t = comment_text(src, newlines).replace("*/", "* /");
                // a closing star-slash may only come from the end
                if t.ends_with('*') && src.bool() {
                    t.push(' ');
                }
                let b = Bit::Block(format!("/*{}*/", t));
                if b.newline() {
                    bare = true;
                }
                out.push(b);
            }
            _ => {
                if bare {
                    out.push(Bit::Close(format!("-->{}", comment_text(src, false))));
                    if !last || src.bool() {
                        if newlines {
                            out.push(Bit::Nl(*src.pick(NEWLINES)));
                            bare = true;
                        } else {
                            return out;
                        }
                    } else {
                        return out;
                    }
                }
            }
        }
    }
    out
}

pub fn bits_text(b: &[Bit]) -> String {
    b.iter().map(|b| b.text()).collect()
}
pub fn bits_newline(b: &[Bit]) -> bool {
    b.iter().any(|b| b.newline())
}

/// Would these two lexemes keep their boundary when written next to each other?
pub fn glue_ok(a: &Lexeme, b: &Lexeme) -> bool {
    let t: Vec<char> = format!("x {}{} ", a.text, b.text).chars().collect();
    let cut = 2 + a.text.chars().count();
    let end = cut + b.text.chars().count();
    let mut r = reflex::Ref::new(&t);
    if r.next(true).is_err() {
        return false;
    }
    match (r.next(a.op.unwrap_or(true)), r.next(b.op.unwrap_or(true))) {
        (Ok(x), Ok(y)) => x.start == 2 && x.end == cut && y.start == cut && y.end == end,
        _ => false,
    }
}

// ---------------------------------------------------------------- arbitrary text

static FRAGMENTS: &[&str] = &[
    "\\u{", "\\u", "\\", "\\x", "\\u{1", "\\u{0000000000000041}", "\\u{110000}", "\\u{ffffffffff}", "\\uD83D", "\\uDE00", "0x", "0b", "0o", "0X", "1e", "1e+",
    "1.", ".", "..", "...", "/*", "*/", "//", "<!--", "<!-", "<!", "-->", "--", "'", "\"", "/", "[", "]", "/a", "/[", "/\\", "\\\n", "\\\r\n", "\\\u{2028}",
    "\r\n", "\r", "\n", "\u{2028}", "\u{feff}", "08", "07", "00", "0", "1", "3in", "3\\u0061", "=>", "=", "!", ">", ">>>=", "}", "{", "(", ")", "e", "E", "g",
];

pub fn mutate(src: &mut Src, s: &str, any: bool) -> String {
    let mut cs: Vec<char> = s.chars().collect();
    let k = 1 + src.count(1, 3);
    for _ in 0..k {
        let n = cs.len() as u64;
        match src.below(6) {
            0 => cs.truncate(src.below(n + 1) as usize),
            1 if n > 0 => {
                cs.remove(src.below(n) as usize);
            }
            2 => {
                let i = src.below(n + 1) as usize;
                let c = ch(src, any);
                cs.insert(i, c);
            }
            3 if n > 0 => {
                let i = src.below(n) as usize;
                cs[i] = ch(src, any);
            }
            4 => {
                let i = src.below(n + 1) as usize;
                let f: Vec<char> = src.pick(FRAGMENTS).chars().collect();
                cs.splice(i..i, f);
            }
            _ if n > 1 => {
                let i = src.below(n - 1) as usize;
                cs.swap(i, i + 1);
            }
            _ => {}
        }
    }
    cs.into_iter().collect()
}

/// Text made of lexemes, broken lexemes, fragments, trivia and single characters.
pub fn soup(src: &mut Src, any: bool) -> String {
    let mut out = String::new();
    for _ in 0..1 + src.count(5, 30) {
        match src.weighted(&[3, 4, 4, 3, 2]) {
            0 => {
                let c = ch(src, any);
                for _ in 0..1 + rarely_long(src) {
                    out.push(c);
                }
            }
            1 => {
                let l = lexeme(src);
                out.push_str(&l.text);
            }
            2 => out.push_str(src.pick(FRAGMENTS)),
            3 => {
                let l = lexeme(src);
                let m = mutate(src, &l.text, any);
                out.push_str(&m);
            }
            _ => {
                let t = trivia(src, true, false, true, true, 3);
                out.push_str(&bits_text(&t));
            }
        }
    }
    out
}

/// A sequence of lexemes with trivia (and glued where that keeps them apart). Each gap is the trivia before the
/// lexeme of the same index; the last gap is what follows the last lexeme.
pub struct Layout {
    pub lexemes: Vec<Lexeme>,
    pub gaps: Vec<Vec<Bit>>,
}

pub fn lexemes(src: &mut Src, max: usize) -> Vec<Lexeme> {
    let n = 1 + src.count(4, max);
    (0..n).map(|_| lexeme(src)).collect()
}

pub fn gaps(src: &mut Src, lx: &[Lexeme]) -> Vec<Vec<Bit>> {
    let mut out = vec![];
    for i in 0..=lx.len() {
        let last = i == lx.len();
        let mut g = trivia(src, i == 0, last, true, true, 5);
        if g.is_empty() && i > 0 && !last && !glue_ok(&lx[i - 1], &lx[i]) {
            g.push(Bit::Space(' '));
        }
        out.push(g);
    }
    fix_gaps(lx, out)
}

pub fn needs_space(a: &str, g: &str) -> bool {
    // the lexeme before must not run into the first character of the trivia
    (a.ends_with('/') || a.ends_with('<')) && (g.starts_with('/') || g.starts_with('*') || g.starts_with('<') || g.starts_with('-') || g.starts_with('!'))
}

fn fix_gaps(lx: &[Lexeme], gs: Vec<Vec<Bit>>) -> Vec<Vec<Bit>> {
    gs.into_iter()
        .enumerate()
        .map(|(i, mut g)| {
            if i > 0 && !g.is_empty() && needs_space(&lx[i - 1].text, &g[0].text()) {
                g.insert(0, Bit::Space(' '));
            }
            g
        })
        .collect()
}

impl Layout {
    pub fn new(src: &mut Src, lexemes: Vec<Lexeme>) -> Layout {
        let gaps = gaps(src, &lexemes);
        let mut l = Layout { lexemes, gaps };
        if !l.sound() {
            // three lexemes written together may still run into each other
            for i in 1..l.lexemes.len() {
                if l.gaps[i].is_empty() {
                    l.gaps[i].push(Bit::Space(' '));
                }
            }
            assert!(l.sound(), "layout does not separate its lexemes: {:?}", l.text());
        }
        l
    }
    /// The reference lexer agrees with the construction (a check of the generator itself).
    fn sound(&self) -> bool {
        let t: Vec<char> = self.text().chars().collect();
        let ops = self.ops();
        let (toks, err) = reflex::lex_all(&t, |i| ops.get(i).cloned().unwrap_or(true));
        let exp = self.expected();
        err.is_none()
            && toks.len() == exp.len()
            && toks.iter().zip(&exp).all(|(a, b)| a.start == b.start && a.end == b.end && a.newline == b.newline && reflex::dump_matches(&a.dump, &b.dump))
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        for (i, l) in self.lexemes.iter().enumerate() {
            s.push_str(&bits_text(&self.gaps[i]));
            s.push_str(&l.text);
        }
        s.push_str(&bits_text(self.gaps.last().unwrap()));
        s
    }
    /// What lexing must yield, by construction.
    pub fn expected(&self) -> Vec<reflex::RTok> {
        let mut out = vec![];
        let mut pos = 0;
        for (i, l) in self.lexemes.iter().enumerate() {
            pos += bits_text(&self.gaps[i]).chars().count();
            let n = l.text.chars().count();
            out.push(reflex::RTok { start: pos, end: pos + n, newline: bits_newline(&self.gaps[i]), dump: l.dump.clone() });
            pos += n;
        }
        let g = self.gaps.last().unwrap();
        pos += bits_text(g).chars().count();
        out.push(reflex::RTok { start: pos, end: pos, newline: bits_newline(g), dump: "eof".into() });
        out
    }
    pub fn ops(&self) -> Vec<bool> {
        let mut v: Vec<bool> = self.lexemes.iter().map(|l| l.op.unwrap_or(true)).collect();
        v.push(true);
        v
    }
}
