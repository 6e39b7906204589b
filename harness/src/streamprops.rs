//! Property C33: the lexer reads its input as it needs it.
use crate::engine::*;
use crate::lexgen::{self, Layout};
use crate::tok::{self, tok_dump};
use joker::error::Error;
use joker::lexer::Lexer;
use joker::token::TokenData;
use std::cell::Cell;
use std::rc::Rc;

/// The most characters that may be looked at after the last one of a token.
const AHEAD: usize = 4;

/// A text and then a tail over and over, counting what is taken.
struct Endless {
    cs: Rc<Vec<char>>,
    tail: Rc<Vec<char>>,
    taken: Rc<Cell<usize>>,
}
impl Iterator for Endless {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        let i = self.taken.get();
        if i > self.cs.len() + 20_000 {
            panic!("{}", NO_PROGRESS);
        }
        self.taken.set(i + 1);
        Some(if i < self.cs.len() { self.cs[i] } else { self.tail[(i - self.cs.len()) % self.tail.len()] })
    }
}

#[derive(Clone, PartialEq, Debug)]
struct Seen {
    what: String,
    /// where it ends; for an error nothing
    end: Option<usize>,
    newline: bool,
    taken: usize,
    error: bool,
}

/// Everything up to the end of the text, or the first error.
fn run(cs: &Rc<Vec<char>>, tail: &str, op: &dyn Fn(usize) -> bool, how: &dyn Fn(usize) -> u64) -> Result<Vec<Seen>, String> {
    let taken = Rc::new(Cell::new(0));
    let mut l = Lexer::new(Endless { cs: cs.clone(), tail: Rc::new(tail.chars().collect()), taken: taken.clone() });
    if taken.get() > AHEAD {
        return Err(format!("a new lexer has already read {} characters", taken.get()));
    }
    let mut out: Vec<Seen> = vec![];
    loop {
        let i = out.len();
        let r = match how(i) {
            0 => l.read_token(op(i)),
            1 => {
                let r = l.peek_token(op(i)).map(|t| t.clone());
                if r.is_ok() {
                    let t = l.read_token(op(i));
                    if t.as_ref().ok() != r.as_ref().ok() {
                        return Err(format!("peeked {:?} but read {:?}", r, t));
                    }
                }
                r
            }
            _ => {
                let r = l.read_token(op(i));
                if let Ok(ref t) = r {
                    l.unread_token(t.clone());
                    l.reread_token();
                }
                r
            }
        };
        match r {
            Ok(t) => {
                if t.value == TokenData::EOF {
                    return Err(format!("the end of input after {} characters of an endless text", taken.get()));
                }
                let end = t.location.end.offset as usize;
                out.push(Seen { what: tok_dump(&t.value), end: Some(end), newline: t.newline, taken: taken.get(), error: false });
                if taken.get() > end + AHEAD {
                    return Err(format!("{} ends at {}, but {} characters have been read for it", tok_dump(&t.value), end, taken.get()));
                }
                if end >= cs.len() {
                    return Ok(out);
                }
            }
            Err(e) => {
                out.push(Seen { what: tok::err_dump(&e), end: None, newline: false, taken: taken.get(), error: true });
                return Ok(out);
            }
        }
    }
}

static TAILS: &[&str] = &["\n*/;", "\u{2028}*/ /x/\n", "\n*/\n'a' b ", "\r*/ + 1.5 ", "\r\n*/{}\n", "\n*/-->\n", " \n*/ \n"];

fn text(src: &mut Src) -> String {
    match src.below(5) {
        // a token and then a run of something
        4 => {
            let lx = lexgen::lexemes(src, 4);
            let l = Layout::new(src, lx).text();
            let run = *src.pick(&[" ", "\t", "\n", "\r\n", "a", "1", ";", "+", "'", "//", "/**/", "\u{3000}", "\\", ".", "\u{2028}", "/*", "-->", "<!--"]);
            format!("{}{}", l, run.repeat(src.usize(5, 40)))
        }
        0 => lexgen::soup(src, false),
        1 => {
            let lx = lexgen::lexemes(src, 10);
            let t = Layout::new(src, lx).text();
            lexgen::mutate(src, &t, false)
        }
        _ => {
            let lx = lexgen::lexemes(src, 10);
            Layout::new(src, lx).text()
        }
    }
}

fn c33_bound(src: &mut Src, case: &mut Case) {
    let t = text(src);
    let ops: Vec<bool> = (0..8).map(|_| src.bool()).collect();
    let hows: Vec<u64> = (0..8).map(|_| src.below(3)).collect();
    let (a, b) = (*src.pick(TAILS), *src.pick(TAILS));
    case.set_input(format!("{:?} modes {:?}, then {:?} or {:?} for ever", t, ops, a, b));
    let cs: Rc<Vec<char>> = Rc::new(t.chars().collect());
    let op = |i: usize| ops[i % ops.len()];
    let how = |i: usize| hows[i % hows.len()];
    let (x, y) = match (run(&cs, a, &op, &how), run(&cs, b, &op, &how)) {
        (Ok(x), Ok(y)) => (x, y),
        (Err(e), _) | (_, Err(e)) => return case.fail(e),
    };
    // what follows cannot change what has come out before it is read
    for (i, s) in x.iter().enumerate() {
        let settled = match s.end {
            Some(e) => e + AHEAD <= cs.len(),
            None => s.taken <= cs.len(),
        };
        if settled && y.get(i) != Some(s) {
            return case.fail(format!("followed by {:?} the {}th token is {:?}, followed by {:?} it is {:?}", a, i + 1, s, b, y.get(i)));
        }
        if settled && s.error {
            case.class("error");
            // fewer characters must not already show the same error
            let less: Rc<Vec<char>> = Rc::new(cs[..s.taken - AHEAD.min(s.taken)].to_vec());
            let same = TAILS.iter().all(|t| match run(&less, t, &op, &how) {
                Ok(z) => z.len() == x.len() && z[i].error && z[i].what == s.what && z[i].taken < s.taken,
                Err(_) => false,
            });
            if same && less.len() > 1 {
                return case.fail(format!("{} after {} characters, when {} are enough whatever follows", s.what, s.taken, less.len()));
            }
        }
    }
    case.nontrivial = x.len() > 1;
    case.class(match x.len() { 0..=1 => "1", 2..=4 => "2-4", 5..=9 => "5-9", _ => "10+" });
}

/// A text over and over: the same tokens every time.
fn c33_cycle(src: &mut Src, case: &mut Case) {
    let lx = lexgen::lexemes(src, 6);
    let l = Layout::new(src, lx);
    let unit = format!("{}\n", l.text());
    let n = l.expected().len();
    if unit.contains("<!--") || unit.contains("-->") || n < 2 {
        return case.set_input(format!("{:?}", unit));
    }
    let n = n - 1;
    let ops = l.ops();
    case.set_input(format!("{:?} for ever", unit));
    case.nontrivial = true;
    let taken = Rc::new(Cell::new(0));
    let len = unit.chars().count();
    let mut lexer = Lexer::new(Endless { cs: Rc::new(vec![]), tail: Rc::new(unit.chars().collect()), taken: taken.clone() });
    let rounds = 3 + src.below(6) as usize;
    for r in 0..rounds {
        for (i, want) in l.expected().iter().take(n).enumerate() {
            let got: Result<_, Error> = lexer.read_token(ops.get(i).cloned().unwrap_or(true));
            let (start, end) = (r * len + want.start, r * len + want.end);
            match got {
                Ok(ref t) if crate::reflex::dump_matches(&want.dump, &tok_dump(&t.value)) && t.location.start.offset as usize == start && t.location.end.offset as usize == end => {}
                other => return case.fail(format!("round {}: got {:?}, expected {} at {}..{}", r + 1, other, want.dump, start, end)),
            }
            if taken.get() > end + AHEAD {
                return case.fail(format!("round {}: {} characters read for {} that ends at {}", r + 1, taken.get(), want.dump, end));
            }
        }
    }
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C33",
        rule: "Generated and mutated texts followed by an endless tail, each under two tails, read directly, by peeking or by putting back; and texts repeated without end. Non-trivial: at least two tokens (an error counts).",
        subs: vec![sub("bounded", c33_bound, 300_000, 4_000_000), sub("cycles", c33_cycle, 100_000, 1_500_000)],
        assumptions: vec!["up to four characters after a token may be looked at, which is what the longest comment opener needs"],
    }]
}
