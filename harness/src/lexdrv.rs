//! Drives the real lexer over a slice of characters with fuel.
use crate::engine::NO_PROGRESS;
use crate::reflex;
use crate::tok;
use joker::error::Error;
use joker::lexer::Lexer;
use joker::token::{Token, TokenData};
use joker::track::Posn;

/// Input iterator that stops a reader that keeps asking after the end.
pub struct Fuel<'a> {
    cs: &'a [char],
    i: usize,
    over: u32,
}
impl<'a> Fuel<'a> {
    pub fn new(cs: &'a [char]) -> Fuel<'a> {
        Fuel { cs, i: 0, over: 0 }
    }
}
impl<'a> Iterator for Fuel<'a> {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        match self.cs.get(self.i) {
            Some(&c) => {
                self.i += 1;
                Some(c)
            }
            None => {
                self.over += 1;
                if self.over > 100_000 {
                    panic!("{}", NO_PROGRESS);
                }
                None
            }
        }
    }
}

pub fn lexer<'a>(cs: &'a [char]) -> Lexer<Fuel<'a>> {
    Lexer::new(Fuel::new(cs))
}

pub struct Lexed {
    pub toks: Vec<Token>,
    pub err: Option<Error>,
    /// neither the end nor an error within the token bound
    pub endless: bool,
}

/// Tokens up to and including end of input or the first error.
pub fn lex(cs: &[char], mut op: impl FnMut(usize) -> bool) -> Lexed {
    let mut l = lexer(cs);
    let mut toks: Vec<Token> = vec![];
    loop {
        if toks.len() > cs.len() + 2 {
            return Lexed { toks, err: None, endless: true };
        }
        match l.read_token(op(toks.len())) {
            Ok(t) => {
                let eof = t.value == TokenData::EOF;
                toks.push(t);
                if eof {
                    return Lexed { toks, err: None, endless: false };
                }
            }
            Err(e) => return Lexed { toks, err: Some(e), endless: false },
        }
    }
}

pub fn posn(cs: &[char], off: usize) -> (u32, u32, u32) {
    let (l, c) = reflex::line_col(cs, off);
    (off as u32, l, c)
}
pub fn p3(p: &Posn) -> (u32, u32, u32) {
    (p.offset, p.line, p.column)
}

/// Describes the first difference between real and reference lexing of cs under the given modes.
pub fn diff(cs: &[char], ops: &[bool]) -> Option<String> {
    let op = |i: usize| ops.get(i).cloned().unwrap_or(i % 2 == 0);
    let real = lex(cs, op);
    let (rt, re) = reflex::lex_all(cs, op);
    diff_lexed(cs, &real, &rt, &re)
}

pub fn diff_lexed(cs: &[char], real: &Lexed, rt: &[reflex::RTok], re: &Option<reflex::RErr>) -> Option<String> {
    for i in 0..rt.len().max(real.toks.len()) {
        match (real.toks.get(i), rt.get(i)) {
            (Some(a), Some(b)) => {
                let d = tok::tok_dump(&a.value);
                if !reflex::dump_matches(&b.dump, &d) {
                    return Some(format!("token {}: got {}, expected {}", i, d, b.dump));
                }
                let (s, e) = (posn(cs, b.start), posn(cs, b.end));
                if p3(&a.location.start) != s || p3(&a.location.end) != e {
                    return Some(format!("token {} ({}): location {:?}..{:?}, expected {:?}..{:?}", i, d, p3(&a.location.start), p3(&a.location.end), s, e));
                }
                if a.newline != b.newline {
                    return Some(format!("token {} ({}): newline flag {}, expected {}", i, d, a.newline, b.newline));
                }
            }
            (Some(a), None) => {
                return Some(format!("token {}: got {}, expected the error {:?}", i, tok::tok_dump(&a.value), re.as_ref().map(|e| e.names.clone())));
            }
            (None, Some(b)) => {
                return Some(format!("token {}: got {}, expected {}", i, real.err.as_ref().map(tok::err_dump).unwrap_or("nothing".into()), b.dump));
            }
            _ => unreachable!(),
        }
    }
    match (&real.err, re) {
        (None, None) => None,
        (Some(a), Some(b)) if b.allows(&tok::err_dump(a)) => None,
        (a, b) => Some(format!("error {:?}, expected {:?}", a.as_ref().map(tok::err_dump), b.as_ref().map(|e| e.names.clone()))),
    }
}
