//! Reference lexer: the ECMAScript lexical grammar (with the Annex B HTML-like comments and legacy octals)
//! over a slice of characters, written from the specification and independent of the library.
//! It classifies each input position and never shares state between tokens.
use crate::tok::{ATOMS, PUNCS, RESERVED};
use crate::unitab;

#[derive(Clone, Debug, PartialEq)]
pub struct RTok {
    pub start: usize,
    pub end: usize,
    pub newline: bool,
    pub dump: String,
}

/// An error names the defect; several names are possible where the specification leaves it open.
#[derive(Clone, Debug, PartialEq)]
pub struct RErr {
    pub names: Vec<String>,
}

impl RErr {
    pub fn allows(&self, name: &str) -> bool {
        self.names.iter().any(|n| n == name || n.ends_with('*') && name.starts_with(&n[..n.len() - 1]))
    }
}

/// Does the actual description match, treating an unspecified string value as matching anything?
pub fn dump_matches(expected: &str, actual: &str) -> bool {
    expected == actual || expected.starts_with("str ") && expected.ends_with(" value *") && actual.starts_with(&expected[..expected.len() - 1])
}

fn err<T>(names: &[String]) -> Result<T, RErr> {
    Err(RErr { names: names.to_vec() })
}
fn err1<T>(name: String) -> Result<T, RErr> {
    Err(RErr { names: vec![name] })
}

fn in_table(t: &[(u32, u32)], c: char) -> bool {
    let c = c as u32;
    match t.binary_search_by(|&(a, b)| if b < c { std::cmp::Ordering::Less } else if a > c { std::cmp::Ordering::Greater } else { std::cmp::Ordering::Equal }) {
        Ok(_) => true,
        Err(_) => false,
    }
}
/// Characters whose classification the reference claims to know.
pub fn assigned(c: char) -> bool {
    in_table(unitab::ASSIGNED9, c) && c != '\u{180e}'
}
pub fn id_start(c: char) -> bool {
    c == '$' || c == '_' || in_table(unitab::ID_START9, c)
}
pub fn id_part(c: char) -> bool {
    c == '$' || c == '_' || c == '\u{200c}' || c == '\u{200d}' || in_table(unitab::ID_CONTINUE9, c)
}
pub fn is_nl(c: char) -> bool {
    c == '\n' || c == '\r' || c == '\u{2028}' || c == '\u{2029}'
}
pub static SPACES: &[char] = &[
    ' ', '\t', '\u{b}', '\u{c}', '\u{a0}', '\u{feff}', '\u{1680}', '\u{2000}', '\u{2001}', '\u{2002}', '\u{2003}', '\u{2004}', '\u{2005}',
    '\u{2006}', '\u{2007}', '\u{2008}', '\u{2009}', '\u{200a}', '\u{202f}', '\u{205f}', '\u{3000}',
];
pub static NEWLINES: &[&str] = &["\n", "\r", "\r\n", "\u{2028}", "\u{2029}"];
pub fn is_space(c: char) -> bool {
    SPACES.contains(&c)
}

/// (line, column) of an offset.
pub fn line_col(cs: &[char], offset: usize) -> (u32, u32) {
    let (mut line, mut last) = (0, 0);
    let mut i = 0;
    while i < offset {
        if cs[i] == '\r' && i + 1 < offset && cs[i + 1] == '\n' {
            i += 1;
        }
        if is_nl(cs[i]) {
            // a CR directly before `offset` counts as a terminator unless an LF follows it
            if !(cs[i] == '\r' && cs.get(i + 1) == Some(&'\n')) {
                line += 1;
                last = i + 1;
            }
        }
        i += 1;
    }
    (line, (offset - last) as u32)
}

pub struct Ref<'a> {
    pub cs: &'a [char],
    pub pos: usize,
    /// nothing but white space and comments since the last line terminator (or the start)
    pub bare_line: bool,
}

fn u(c: Option<char>) -> String {
    match c {
        None => "end".to_string(),
        Some(c) => format!("U+{:04X}", c as u32),
    }
}

impl<'a> Ref<'a> {
    pub fn new(cs: &'a [char]) -> Ref<'a> {
        Ref { cs, pos: 0, bare_line: true }
    }
    fn at(&self, i: usize) -> Option<char> {
        self.cs.get(i).cloned()
    }
    fn looking_at(&self, i: usize, s: &str) -> bool {
        s.chars().enumerate().all(|(k, c)| self.at(i + k) == Some(c))
    }
    fn to_line_end(&self, mut i: usize) -> usize {
        while i < self.cs.len() && !is_nl(self.cs[i]) {
            i += 1;
        }
        i
    }

    /// Skips trivia from self.pos; Ok(newline seen).
    pub fn trivia(&mut self) -> Result<bool, RErr> {
        let mut nl = false;
        loop {
            let i = self.pos;
            match self.at(i) {
                Some(c) if is_space(c) => self.pos += 1,
                Some(c) if is_nl(c) => {
                    nl = true;
                    self.bare_line = true;
                    self.pos += 1;
                }
                _ if self.looking_at(i, "//") || self.looking_at(i, "<!--") => self.pos = self.to_line_end(i),
                _ if self.looking_at(i, "/*") => {
                    let mut k = i + 2;
                    loop {
                        if k + 1 >= self.cs.len() {
                            return err1("UnterminatedComment".into());
                        }
                        if self.cs[k] == '*' && self.cs[k + 1] == '/' {
                            break;
                        }
                        if is_nl(self.cs[k]) {
                            nl = true;
                            self.bare_line = true;
                        }
                        k += 1;
                    }
                    self.pos = k + 2;
                }
                _ if self.bare_line && self.looking_at(i, "-->") => self.pos = self.to_line_end(i),
                _ => return Ok(nl),
            }
        }
    }

    pub fn next(&mut self, operator: bool) -> Result<RTok, RErr> {
        let newline = self.trivia()?;
        self.bare_line = false;
        let start = self.pos;
        let c = match self.at(start) {
            None => return Ok(RTok { start, end: start, newline, dump: "eof".into() }),
            Some(c) => c,
        };
        let (end, dump) = if c == '/' && !operator {
            self.regexp(start)?
        } else if c.is_ascii_digit() || (c == '.' && self.at(start + 1).map_or(false, |d| d.is_ascii_digit())) {
            self.number(start)?
        } else if c == '"' || c == '\'' {
            self.string(start)?
        } else if c == '\\' || id_start(c) {
            self.word(start)?
        } else if let Some(p) = PUNCS.iter().filter(|p| self.looking_at(start, p)).max_by_key(|p| p.len()) {
            (start + p.chars().count(), format!("punc {}", p))
        } else {
            return err1(format!("IllegalChar {}", u(Some(c))));
        };
        self.pos = end;
        Ok(RTok { start, end, newline, dump })
    }

    fn regexp(&self, start: usize) -> Result<(usize, String), RErr> {
        let mut i = start + 1;
        let mut class = false;
        loop {
            let c = match self.at(i) {
                None => return err1("UnterminatedRegExp end".into()),
                Some(c) if is_nl(c) => return err1(format!("UnterminatedRegExp {}", u(Some(c)))),
                Some(c) => c,
            };
            if c == '\\' {
                match self.at(i + 1) {
                    None => return err1("UnterminatedRegExp end".into()),
                    Some(c) if is_nl(c) => return err1(format!("UnterminatedRegExp {}", u(Some(c)))),
                    Some(_) => i += 2,
                }
                continue;
            }
            if c == '/' && !class {
                break;
            }
            if c == '[' {
                class = true;
            } else if c == ']' {
                class = false;
            }
            i += 1;
        }
        let body: String = self.cs[start + 1..i].iter().collect();
        i += 1;
        let f = i;
        while self.at(i).map_or(false, id_part) {
            i += 1;
        }
        if self.at(i) == Some('\\') {
            // flags may not contain escapes
            return err(&["IllegalChar U+005C".to_string(), "IncompleteWordEscape *".to_string()]);
        }
        let flags: String = self.cs[f..i].iter().collect();
        Ok((i, format!("re {:?} flags {:?}", body, flags)))
    }

    fn digits(&self, mut i: usize, radix: u32) -> usize {
        while self.at(i).map_or(false, |c| c.is_digit(radix)) {
            i += 1;
        }
        i
    }

    fn number(&self, start: usize) -> Result<(usize, String), RErr> {
        let s = |a: usize, b: usize| -> String { self.cs[a..b].iter().collect() };
        let (end, kind, value);
        let radix = match (self.at(start), self.at(start + 1)) {
            (Some('0'), Some('x')) | (Some('0'), Some('X')) => Some((16, "hex", "MissingHexDigits")),
            (Some('0'), Some('o')) | (Some('0'), Some('O')) => Some((8, "oct", "MissingOctalDigits")),
            (Some('0'), Some('b')) | (Some('0'), Some('B')) => Some((2, "bin", "MissingBinaryDigits")),
            _ => None,
        };
        if let Some((r, k, missing)) = radix {
            end = self.digits(start + 2, r);
            if end == start + 2 {
                return match self.at(end) {
                    None => err1(missing.into()),
                    Some(c) => err(&[format!("InvalidDigit {}", u(Some(c))), missing.into()]),
                };
            }
            kind = k;
            value = radix_value(&self.cs[start + 2..end], r);
        } else {
            let int_end = self.digits(start, 10);
            if int_end > start + 1 && self.cs[start] == '0' && self.cs[start..int_end].iter().all(|c| c.is_digit(8)) {
                end = int_end;
                kind = "legacy-oct";
                value = radix_value(&self.cs[start..end], 8);
            } else {
                let dot = self.at(int_end) == Some('.');
                let frac_end = if dot { self.digits(int_end + 1, 10) } else { int_end };
                let mut e = frac_end;
                let mut has_exp = false;
                if self.at(e) == Some('e') || self.at(e) == Some('E') {
                    has_exp = true;
                    e += 1;
                    if self.at(e) == Some('+') || self.at(e) == Some('-') {
                        e += 1;
                    }
                    let d = self.digits(e, 10);
                    if d == e {
                        return err1(format!("MissingExponent {}", u(self.at(e))));
                    }
                    e = d;
                }
                end = e;
                kind = match (dot, has_exp) {
                    (false, false) => "int",
                    (false, true) => "int-exp",
                    (true, false) => "float",
                    (true, true) => "float-exp",
                };
                value = decimal_value(&s(start, end));
            }
        }
        match self.at(end) {
            Some(c) if c == '\\' || id_start(c) => return err1(format!("IdAfterNumber {}", u(Some(c)))),
            Some(c) if c.is_ascii_digit() => return err1(format!("DigitAfterNumber {}", u(Some(c)))),
            _ => {}
        }
        Ok((end, format!("num {} {} {:016x}", kind, s(start, end), value.to_bits())))
    }

    /// Hex digits of a \u escape whose 'u' is at i-1: (code point, next index)
    fn unicode_escape(&self, mut i: usize, eof: &[String]) -> Result<(u64, usize), RErr> {
        if self.at(i) == Some('{') {
            i += 1;
            let mut v: u64 = 0;
            let mut n = 0;
            loop {
                match self.at(i) {
                    Some('}') if n > 0 => return Ok((v, i + 1)),
                    Some(c) if c.is_digit(16) => {
                        v = (v << 4 | c.to_digit(16).unwrap() as u64).min(0xffff_ffff);
                        n += 1;
                        i += 1;
                    }
                    Some(c) => return err1(format!("InvalidDigit {}", u(Some(c)))),
                    None => {
                        let mut names = vec!["MissingHexDigits".to_string()];
                        names.extend(eof.iter().cloned());
                        return err(&names);
                    }
                }
            }
        }
        let mut v = 0u64;
        for _ in 0..4 {
            match self.at(i) {
                Some(c) if c.is_digit(16) => v = v << 4 | c.to_digit(16).unwrap() as u64,
                Some(c) => return err1(format!("InvalidDigit {}", u(Some(c)))),
                None => {
                    let mut names = vec!["MissingHexDigits".to_string()];
                    names.extend(eof.iter().cloned());
                    return err(&names);
                }
            }
            i += 1;
        }
        Ok((v, i))
    }

    fn string(&self, start: usize) -> Result<(usize, String), RErr> {
        let quote = self.cs[start];
        let eof = ["UnterminatedString end".to_string()];
        let mut units: Vec<u16> = vec![];
        let mut i = start + 1;
        let push = |units: &mut Vec<u16>, cp: u32| {
            let mut b = [0u16; 2];
            match char::from_u32(cp) {
                Some(c) => units.extend_from_slice(c.encode_utf16(&mut b)),
                None => units.push(cp as u16), // lone surrogate
            }
        };
        loop {
            let c = match self.at(i) {
                None => return err1(eof[0].clone()),
                Some(c) => c,
            };
            if c == quote {
                i += 1;
                break;
            }
            if is_nl(c) {
                return err1(format!("UnterminatedString {}", u(Some(c))));
            }
            if c != '\\' {
                push(&mut units, c as u32);
                i += 1;
                continue;
            }
            i += 1;
            let c = match self.at(i) {
                None => return err1(eof[0].clone()),
                Some(c) => c,
            };
            i += 1;
            match c {
                '\r' if self.at(i) == Some('\n') => i += 1,
                c if is_nl(c) => {}
                '0'..='7' => {
                    let max = if c <= '3' { 3 } else { 2 };
                    let mut v = c.to_digit(8).unwrap();
                    let mut n = 1;
                    while n < max && self.at(i).map_or(false, |c| c.is_digit(8)) {
                        v = v * 8 + self.cs[i].to_digit(8).unwrap();
                        i += 1;
                        n += 1;
                    }
                    push(&mut units, v);
                }
                'x' => {
                    let mut v = 0;
                    for _ in 0..2 {
                        match self.at(i) {
                            Some(c) if c.is_digit(16) => v = v * 16 + c.to_digit(16).unwrap(),
                            Some(c) => return err1(format!("InvalidDigit {}", u(Some(c)))),
                            None => return err(&["MissingHexDigits".to_string(), eof[0].clone()]),
                        }
                        i += 1;
                    }
                    push(&mut units, v);
                }
                'u' => {
                    let (v, k) = self.unicode_escape(i, &eof)?;
                    if v > 0x10ffff {
                        return err1("IllegalUnicode *".into());
                    }
                    // a \u{} escape of a surrogate code point is the code unit itself
                    push(&mut units, v as u32);
                    i = k;
                }
                'n' => units.push(10),
                't' => units.push(9),
                'r' => units.push(13),
                'b' => units.push(8),
                'v' => units.push(11),
                'f' => units.push(12),
                c => push(&mut units, c as u32),
            }
        }
        let source: String = self.cs[start..i].iter().collect();
        let value = match String::from_utf16(&units) {
            Ok(v) => format!("{:?}", v),
            // not representable: unspecified
            Err(_) => "*".to_string(),
        };
        Ok((i, format!("str {:?} value {}", Some(source), value)))
    }

    fn word(&self, start: usize) -> Result<(usize, String), RErr> {
        let mut text = String::new();
        let mut escaped = false;
        let mut i = start;
        loop {
            match self.at(i) {
                Some('\\') => {
                    escaped = true;
                    if self.at(i + 1) != Some('u') {
                        return err1(format!("IncompleteWordEscape {}", u(self.at(i + 1))));
                    }
                    let (v, k) = self.unicode_escape(i + 2, &[])?;
                    let ok = char::from_u32(v as u32).filter(|&c| if text.is_empty() { id_start(c) } else { id_part(c) });
                    match ok {
                        Some(c) => text.push(c),
                        None if v > 0x10ffff => return err1("IllegalUnicode *".into()),
                        None => return err1(format!("IllegalUnicode {:X}", v)),
                    }
                    i = k;
                }
                Some(c) if id_part(c) => {
                    text.push(c);
                    i += 1;
                }
                _ => break,
            }
        }
        let dump = if RESERVED.iter().any(|p| p.0 == text) {
            if escaped {
                return err1(format!("ReservedWordWithEscapes {}", text));
            }
            format!("kw {}", text)
        } else if !escaped && ATOMS.iter().any(|p| p.0 == text) {
            format!("atom {}", text)
        } else {
            format!("id {:?}", text)
        };
        Ok((i, dump))
    }
}

/// The double nearest to an integer written in a power-of-two radix (ties to even).
pub fn radix_value(digits: &[char], radix: u32) -> f64 {
    let bits_per = radix.trailing_zeros();
    let mut bits: Vec<bool> = vec![];
    for d in digits {
        let v = d.to_digit(radix).unwrap();
        for k in (0..bits_per).rev() {
            bits.push(v >> k & 1 == 1);
        }
    }
    let first = match bits.iter().position(|&b| b) {
        None => return 0.0,
        Some(p) => p,
    };
    let bits = &bits[first..];
    let n = bits.len();
    let mut m: u64 = 0;
    for i in 0..53.min(n) {
        m = m << 1 | bits[i] as u64;
    }
    if n <= 53 {
        return m as f64;
    }
    let half = bits[53];
    let sticky = bits[54..].iter().any(|&b| b);
    if half && (sticky || m & 1 == 1) {
        m += 1;
    }
    let mut e = n - 53;
    if m == 1 << 53 {
        m >>= 1;
        e += 1;
    }
    if e + 52 > 1023 {
        return f64::INFINITY;
    }
    m as f64 * 2f64.powi(e as i32)
}

/// The double nearest to a decimal literal, computed from the digits with the point moved to the far left.
pub fn decimal_value(s: &str) -> f64 {
    let (mant, exp) = match s.find(|c| c == 'e' || c == 'E') {
        Some(p) => (&s[..p], &s[p + 1..]),
        None => (s, "0"),
    };
    let (ip, fp) = match mant.find('.') {
        Some(p) => (&mant[..p], &mant[p + 1..]),
        None => (mant, ""),
    };
    let digits = format!("{}{}", ip, fp);
    let trimmed = digits.trim_start_matches('0');
    if trimmed.is_empty() {
        return 0.0;
    }
    let lead = digits.len() - trimmed.len();
    let (neg, exp) = match exp.chars().next() {
        Some('-') => (true, &exp[1..]),
        Some('+') => (false, &exp[1..]),
        _ => (false, exp),
    };
    let exp = exp.trim_start_matches('0');
    let exp: i128 = if exp.is_empty() {
        0
    } else if exp.len() > 25 {
        i64::MAX as i128
    } else {
        exp.parse().unwrap()
    };
    let exp = if neg { -exp } else { exp };
    let point = exp + ip.len() as i128 - lead as i128; // value = 0.trimmed * 10^point
    if point > 400 {
        return f64::INFINITY;
    }
    if point < -400 {
        return 0.0;
    }
    format!("0.{}e{}", trimmed, point).parse().unwrap()
}

/// Tokens up to and including end of input, or up to the first error.
pub fn lex_all(cs: &[char], mut op: impl FnMut(usize) -> bool) -> (Vec<RTok>, Option<RErr>) {
    let mut r = Ref::new(cs);
    let mut out = vec![];
    loop {
        match r.next(op(out.len())) {
            Ok(t) => {
                let eof = t.dump == "eof";
                out.push(t);
                if eof {
                    return (out, None);
                }
            }
            Err(e) => return (out, Some(e)),
        }
    }
}
