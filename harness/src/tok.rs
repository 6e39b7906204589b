//! Canonical descriptions of tokens and lexical errors, written out from the token type's
//! documentation and independent of the library's own tables.
use joker::error::Error;
use joker::token::*;
use joker::word::{Atom, Name, Reserved};

pub static RESERVED: &[(&str, Reserved)] = &[
    ("null", Reserved::Null), ("true", Reserved::True), ("false", Reserved::False),
    ("break", Reserved::Break), ("case", Reserved::Case), ("catch", Reserved::Catch), ("class", Reserved::Class),
    ("const", Reserved::Const), ("continue", Reserved::Continue), ("debugger", Reserved::Debugger),
    ("default", Reserved::Default), ("delete", Reserved::Delete), ("do", Reserved::Do), ("else", Reserved::Else),
    ("export", Reserved::Export), ("extends", Reserved::Extends), ("finally", Reserved::Finally), ("for", Reserved::For),
    ("function", Reserved::Function), ("if", Reserved::If), ("import", Reserved::Import), ("in", Reserved::In),
    ("instanceof", Reserved::Instanceof), ("new", Reserved::New), ("return", Reserved::Return), ("super", Reserved::Super),
    ("switch", Reserved::Switch), ("this", Reserved::This), ("throw", Reserved::Throw), ("try", Reserved::Try),
    ("typeof", Reserved::Typeof), ("var", Reserved::Var), ("void", Reserved::Void), ("while", Reserved::While),
    ("with", Reserved::With), ("enum", Reserved::Enum),
];

pub static ATOMS: &[(&str, Atom)] = &[
    ("arguments", Atom::Arguments), ("await", Atom::Await), ("eval", Atom::Eval), ("async", Atom::Async), ("from", Atom::From),
    ("get", Atom::Get), ("implements", Atom::Implements), ("interface", Atom::Interface), ("let", Atom::Let), ("of", Atom::Of),
    ("package", Atom::Package), ("private", Atom::Private), ("protected", Atom::Protected), ("public", Atom::Public),
    ("set", Atom::Set), ("static", Atom::Static), ("target", Atom::Target), ("yield", Atom::Yield),
];

/// Every punctuator spelling of the token type, longest first within a first character.
pub static PUNCS: &[&str] = &[
    ">>>=", "...", "===", "!==", ">>>", "<<=", ">>=", "<=", ">=", "==", "!=", "++", "--", "<<", ">>", "&&", "||", "+=", "-=", "*=",
    "%=", "&=", "|=", "^=", "=>", "/=", "{", "}", "(", ")", "[", "]", ".", ";", ",", "<", ">", "+", "-", "*", "%", "&", "|", "^",
    "!", "~", "?", ":", "=", "/",
];

pub fn punc(d: &TokenData) -> Option<&'static str> {
    Some(match *d {
        TokenData::LBrace => "{", TokenData::RBrace => "}", TokenData::LParen => "(", TokenData::RParen => ")",
        TokenData::LBrack => "[", TokenData::RBrack => "]", TokenData::Dot => ".", TokenData::Ellipsis => "...",
        TokenData::Semi => ";", TokenData::Comma => ",", TokenData::LAngle => "<", TokenData::RAngle => ">",
        TokenData::LEq => "<=", TokenData::GEq => ">=", TokenData::Eq => "==", TokenData::NEq => "!=",
        TokenData::StrictEq => "===", TokenData::StrictNEq => "!==", TokenData::Plus => "+", TokenData::Minus => "-",
        TokenData::Star => "*", TokenData::Mod => "%", TokenData::Slash => "/", TokenData::Inc => "++", TokenData::Dec => "--",
        TokenData::LShift => "<<", TokenData::RShift => ">>", TokenData::URShift => ">>>", TokenData::BitAnd => "&",
        TokenData::BitOr => "|", TokenData::BitXor => "^", TokenData::Bang => "!", TokenData::Tilde => "~",
        TokenData::LogicalAnd => "&&", TokenData::LogicalOr => "||", TokenData::Question => "?", TokenData::Colon => ":",
        TokenData::Assign => "=", TokenData::PlusAssign => "+=", TokenData::MinusAssign => "-=", TokenData::StarAssign => "*=",
        TokenData::SlashAssign => "/=", TokenData::ModAssign => "%=", TokenData::LShiftAssign => "<<=",
        TokenData::RShiftAssign => ">>=", TokenData::URShiftAssign => ">>>=", TokenData::BitAndAssign => "&=",
        TokenData::BitOrAssign => "|=", TokenData::BitXorAssign => "^=", TokenData::Arrow => "=>",
        _ => return None,
    })
}

pub fn reserved_text(r: Reserved) -> &'static str {
    RESERVED.iter().find(|p| p.1 == r).unwrap().0
}
pub fn atom_text(a: Atom) -> &'static str {
    ATOMS.iter().find(|p| p.1 == a).unwrap().0
}

fn case(c: &CharCase, l: &str) -> String {
    match *c {
        CharCase::LowerCase => l.to_string(),
        CharCase::UpperCase => l.to_uppercase(),
    }
}

/// The source spelling a recorded number source stands for.
pub fn num_source(s: &NumberSource) -> String {
    fn exp(e: &Option<Exp>) -> String {
        match *e {
            None => String::new(),
            Some(ref e) => format!(
                "{}{}{}",
                case(&e.e, "e"),
                match e.sign { None => "", Some(Sign::Plus) => "+", Some(Sign::Minus) => "-" },
                e.value
            ),
        }
    }
    match *s {
        NumberSource::DecimalInt(ref i, ref e) => format!("{}{}", i, exp(e)),
        NumberSource::RadixInt(Radix::Bin(ref c), ref d) => format!("0{}{}", case(c, "b"), d),
        NumberSource::RadixInt(Radix::Oct(Some(ref c)), ref d) => format!("0{}{}", case(c, "o"), d),
        NumberSource::RadixInt(Radix::Oct(None), ref d) => d.clone(),
        NumberSource::RadixInt(Radix::Hex(ref c), ref d) => format!("0{}{}", case(c, "x"), d),
        NumberSource::Float(ref i, ref f, ref e) => {
            format!("{}.{}{}", i.clone().unwrap_or_default(), f.clone().unwrap_or_default(), exp(e))
        }
    }
}

/// Kind of a recorded number source.
pub fn num_kind(s: &NumberSource) -> &'static str {
    match *s {
        NumberSource::DecimalInt(_, None) => "int",
        NumberSource::DecimalInt(_, Some(_)) => "int-exp",
        NumberSource::RadixInt(Radix::Bin(_), _) => "bin",
        NumberSource::RadixInt(Radix::Oct(Some(_)), _) => "oct",
        NumberSource::RadixInt(Radix::Oct(None), _) => "legacy-oct",
        NumberSource::RadixInt(Radix::Hex(_), _) => "hex",
        NumberSource::Float(_, _, None) => "float",
        NumberSource::Float(_, _, Some(_)) => "float-exp",
    }
}

pub fn num_dump(n: &NumberLiteral) -> String {
    match n.source {
        Some(ref s) => format!("{} {} {:016x}", num_kind(s), num_source(s), n.value.to_bits()),
        None => format!("nosource {:016x}", n.value.to_bits()),
    }
}
pub fn str_dump(s: &StringLiteral) -> String {
    format!("{:?} value {:?}", s.source, s.value)
}
pub fn re_dump(r: &RegExpLiteral) -> String {
    format!("{:?} flags {:?}", r.pattern, r.flags.iter().collect::<String>())
}
pub fn name_dump(n: &Name) -> String {
    match *n {
        Name::Atom(a) => format!("atom {}", atom_text(a)),
        Name::String(ref s) => format!("id {:?}", s),
    }
}

/// The spelling of a name, whether it is one of the known words or not.
pub fn name_text(n: &Name) -> String {
    match *n {
        Name::Atom(a) => atom_text(a).to_string(),
        Name::String(ref s) => s.clone(),
    }
}

pub fn tok_dump(d: &TokenData) -> String {
    if let Some(p) = punc(d) {
        return format!("punc {}", p);
    }
    match *d {
        TokenData::Reserved(r) => format!("kw {}", reserved_text(r)),
        TokenData::Number(ref n) => format!("num {}", num_dump(n)),
        TokenData::String(ref s) => format!("str {}", str_dump(s)),
        TokenData::RegExp(ref r) => format!("re {}", re_dump(r)),
        TokenData::Identifier(ref n) => name_dump(n),
        TokenData::EOF => "eof".to_string(),
        _ => unreachable!(),
    }
}

pub fn err_dump(e: &Error) -> String {
    fn c(o: &Option<char>) -> String {
        match *o {
            None => "end".to_string(),
            Some(c) => format!("U+{:04X}", c as u32),
        }
    }
    match *e {
        Error::IncompleteWordEscape(ref o) => format!("IncompleteWordEscape {}", c(o)),
        Error::UnterminatedComment => "UnterminatedComment".to_string(),
        Error::UnterminatedRegExp(ref o) => format!("UnterminatedRegExp {}", c(o)),
        Error::MissingExponent(ref o) => format!("MissingExponent {}", c(o)),
        Error::UnterminatedString(ref o) => format!("UnterminatedString {}", c(o)),
        Error::MissingBinaryDigits => "MissingBinaryDigits".to_string(),
        Error::MissingOctalDigits => "MissingOctalDigits".to_string(),
        Error::MissingHexDigits => "MissingHexDigits".to_string(),
        Error::IllegalChar(ch) => format!("IllegalChar U+{:04X}", ch as u32),
        Error::InvalidDigit(ch) => format!("InvalidDigit U+{:04X}", ch as u32),
        Error::IllegalUnicode(u) => format!("IllegalUnicode {:X}", u),
        Error::IdAfterNumber(ch) => format!("IdAfterNumber U+{:04X}", ch as u32),
        Error::DigitAfterNumber(ch) => format!("DigitAfterNumber U+{:04X}", ch as u32),
        Error::ReservedWordWithEscapes(r) => format!("ReservedWordWithEscapes {}", reserved_text(r)),
    }
}
