//! Checks of the JSON accessors: C29.
use crate::engine::*;
use serde_json::value::Value;
use std::collections::BTreeMap;
use unjson::error::{self, Error};
use unjson::ty::{Object, Ty, TyOf};
use unjson::{ExtractField, GetField, Unjson};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Req {
    Array,
    Str,
    Object,
    Bool,
    I64,
    U64,
    F64,
    Number,
}
use self::Req::*;
static REQS: &[Req] = &[Array, Str, Object, Bool, I64, U64, F64, Number];

fn word(r: Req, opt: bool) -> &'static str {
    match (r, opt) {
        (Array, false) => "array",
        (Str, false) => "string",
        (Object, false) => "object",
        (Bool, false) => "boolean",
        (I64, false) => "i64",
        (U64, false) => "u64",
        (F64, false) => "f64",
        (Number, false) => "number",
        (Array, true) => "array or null",
        (Str, true) => "string or null",
        (Object, true) => "object or null",
        (Bool, true) => "boolean or null",
        (I64, true) => "i64 or null",
        (U64, true) => "u64 or null",
        (F64, true) => "f64 or null",
        (Number, true) => "number or null",
    }
}

fn type_of(v: &Value) -> Ty {
    match *v {
        Value::Null => Ty::Null,
        Value::Bool(_) => Ty::Boolean,
        Value::String(_) => Ty::String,
        Value::I64(_) | Value::U64(_) | Value::F64(_) => Ty::Number,
        Value::Array(_) => Ty::Array,
        Value::Object(_) => Ty::Object,
    }
}
fn type_word(t: Ty) -> &'static str {
    match t {
        Ty::Null => "null",
        Ty::Boolean => "boolean",
        Ty::String => "string",
        Ty::Number => "number",
        Ty::Array => "array",
        Ty::Object => "object",
    }
}

/// What an accessor must answer: the content, as a value of the requested type.
fn model(v: &Value, r: Req, opt: bool) -> Result<Option<Value>, Error> {
    let content = match (r, v) {
        (Array, &Value::Array(_)) | (Str, &Value::String(_)) | (Object, &Value::Object(_)) | (Bool, &Value::Bool(_)) => Some(v.clone()),
        // integers are integers however they are stored
        (I64, &Value::I64(n)) => Some(Value::I64(n)),
        (I64, &Value::U64(n)) if n <= i64::max_value() as u64 => Some(Value::I64(n as i64)),
        (U64, &Value::U64(n)) => Some(Value::U64(n)),
        (U64, &Value::I64(n)) if n >= 0 => Some(Value::U64(n as u64)),
        (F64, &Value::F64(x)) | (Number, &Value::F64(x)) => Some(Value::F64(x)),
        (F64, &Value::I64(n)) | (Number, &Value::I64(n)) => Some(Value::F64(n as f64)),
        (F64, &Value::U64(n)) | (Number, &Value::U64(n)) => Some(Value::F64(n as f64)),
        _ => None,
    };
    match content {
        Some(c) => Ok(Some(c)),
        None if opt && *v == Value::Null => Ok(None),
        None => Err(Error::TypeMismatch(word(r, opt), type_of(v))),
    }
}

type Answer = Result<Option<Value>, Error>;

/// Equality that tells the kinds of number and the signs of zero apart.
fn same_value(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (&Value::I64(x), &Value::I64(y)) => x == y,
        (&Value::U64(x), &Value::U64(y)) => x == y,
        (&Value::F64(x), &Value::F64(y)) => x.to_bits() == y.to_bits(),
        (&Value::Array(ref x), &Value::Array(ref y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same_value(a, b)),
        (&Value::Object(ref x), &Value::Object(ref y)) => same_object(x, y),
        (&Value::Null, &Value::Null) => true,
        (&Value::Bool(x), &Value::Bool(y)) => x == y,
        (&Value::String(ref x), &Value::String(ref y)) => x == y,
        _ => false,
    }
}
fn same_object(x: &Object, y: &Object) -> bool {
    x.len() == y.len() && x.iter().zip(y).all(|((k, a), (l, b))| k == l && same_value(a, b))
}
fn same_answer(a: &Answer, b: &Answer) -> bool {
    match (a, b) {
        (&Ok(Some(ref x)), &Ok(Some(ref y))) => same_value(x, y),
        (&Ok(None), &Ok(None)) => true,
        (&Err(ref x), &Err(ref y)) => x == y,
        _ => false,
    }
}

fn arr(x: Vec<Value>) -> Value {
    Value::Array(x)
}
fn text(x: String) -> Value {
    Value::String(x)
}

fn through_value(v: &Value, r: Req, opt: bool) -> Answer {
    let own = || v.clone();
    match (r, opt) {
        (Array, false) => own().into_array().map(|x| Some(arr(x))),
        (Array, true) => own().into_array_opt().map(|x| x.map(arr)),
        (Str, false) => own().into_string().map(|x| Some(text(x))),
        (Str, true) => own().into_string_opt().map(|x| x.map(text)),
        (Object, false) => own().into_object().map(|x| Some(Value::Object(x))),
        (Object, true) => own().into_object_opt().map(|x| x.map(Value::Object)),
        (Bool, false) => v.to_bool().map(|x| Some(Value::Bool(x))),
        (Bool, true) => v.to_bool_opt().map(|x| x.map(Value::Bool)),
        (I64, false) => v.to_i64().map(|x| Some(Value::I64(x))),
        (I64, true) => v.to_i64_opt().map(|x| x.map(Value::I64)),
        (U64, false) => v.to_u64().map(|x| Some(Value::U64(x))),
        (U64, true) => v.to_u64_opt().map(|x| x.map(Value::U64)),
        (F64, false) => v.to_f64().map(|x| Some(Value::F64(x))),
        (F64, true) => v.to_f64_opt().map(|x| x.map(Value::F64)),
        (Number, false) => v.to_number().map(|x| Some(Value::F64(x))),
        (Number, true) => v.to_number_opt().map(|x| x.map(Value::F64)),
    }
}
fn through_get(o: &Object, k: &'static str, r: Req, opt: bool) -> Answer {
    match (r, opt) {
        (Array, false) => o.get_array(k).map(|x| Some(arr(x.clone()))),
        (Array, true) => o.get_array_opt(k).map(|x| x.map(|x| arr(x.clone()))),
        (Str, false) => o.get_string(k).map(|x| Some(text(x.to_string()))),
        (Str, true) => o.get_string_opt(k).map(|x| x.map(|x| text(x.to_string()))),
        (Object, false) => o.get_object(k).map(|x| Some(Value::Object(x.clone()))),
        (Object, true) => o.get_object_opt(k).map(|x| x.map(|x| Value::Object(x.clone()))),
        (Bool, false) => o.get_bool(k).map(|x| Some(Value::Bool(x))),
        (Bool, true) => o.get_bool_opt(k).map(|x| x.map(Value::Bool)),
        (I64, false) => o.get_i64(k).map(|x| Some(Value::I64(x))),
        (I64, true) => o.get_i64_opt(k).map(|x| x.map(Value::I64)),
        (U64, false) => o.get_u64(k).map(|x| Some(Value::U64(x))),
        (U64, true) => o.get_u64_opt(k).map(|x| x.map(Value::U64)),
        (F64, false) => o.get_f64(k).map(|x| Some(Value::F64(x))),
        (F64, true) => o.get_f64_opt(k).map(|x| x.map(Value::F64)),
        (Number, false) => o.get_number(k).map(|x| Some(Value::F64(x))),
        (Number, true) => o.get_number_opt(k).map(|x| x.map(Value::F64)),
    }
}
fn through_extract(o: &mut Object, k: &'static str, r: Req, opt: bool) -> Answer {
    match (r, opt) {
        (Array, false) => o.extract_array(k).map(|x| Some(arr(x))),
        (Array, true) => o.extract_array_opt(k).map(|x| x.map(arr)),
        (Str, false) => o.extract_string(k).map(|x| Some(text(x))),
        (Str, true) => o.extract_string_opt(k).map(|x| x.map(text)),
        (Object, false) => o.extract_object(k).map(|x| Some(Value::Object(x))),
        (Object, true) => o.extract_object_opt(k).map(|x| x.map(Value::Object)),
        (Bool, false) => o.extract_bool(k).map(|x| Some(Value::Bool(x))),
        (Bool, true) => o.extract_bool_opt(k).map(|x| x.map(Value::Bool)),
        (I64, false) => o.extract_i64(k).map(|x| Some(Value::I64(x))),
        (I64, true) => o.extract_i64_opt(k).map(|x| x.map(Value::I64)),
        (U64, false) => o.extract_u64(k).map(|x| Some(Value::U64(x))),
        (U64, true) => o.extract_u64_opt(k).map(|x| x.map(Value::U64)),
        (F64, false) => o.extract_f64(k).map(|x| Some(Value::F64(x))),
        (F64, true) => o.extract_f64_opt(k).map(|x| x.map(Value::F64)),
        (Number, false) => o.extract_number(k).map(|x| Some(Value::F64(x))),
        (Number, true) => o.extract_number_opt(k).map(|x| x.map(Value::F64)),
    }
}

// ------------------------------------------------------------------ values

static I64S: &[i64] = &[0, 1, -1, 7, i64::min_value(), i64::max_value(), 9007199254740993, -9007199254740993];
static U64S: &[u64] = &[0, 1, 7, 9223372036854775807, 9223372036854775808, u64::max_value(), 9007199254740993];
static F64S: &[f64] = &[0.0, -0.0, 1.0, 1.5, -2.25, 1e300, 5e-324, 9223372036854775808.0, 18446744073709551616.0];
static KEYS: &[&'static str] = &["", "a", "b", "type", "A", "a ", "\u{e9}", "\u{1F600}", "a\0", "value"];

fn value(src: &mut Src, depth: u32) -> Value {
    match src.below(if depth == 0 { 7 } else { 9 }) {
        0 => Value::Null,
        1 => Value::Bool(src.bool()),
        2 => Value::I64(if src.bool() { *src.pick(I64S) } else { src.below(1 << 40) as i64 - (1 << 39) }),
        3 => Value::U64(if src.bool() { *src.pick(U64S) } else { src.below(1 << 40) }),
        4 => Value::F64(if src.bool() { *src.pick(F64S) } else { src.below(1 << 40) as f64 / 256.0 }),
        5 | 6 => Value::String(string(src)),
        7 => {
            let n = src.count(1, 4);
            Value::Array((0..n).map(|_| value(src, depth - 1)).collect())
        }
        _ => Value::Object(object(src, depth - 1)),
    }
}
fn string(src: &mut Src) -> String {
    let n = src.count(2, 6);
    (0..n).map(|_| *src.pick(&['a', '0', ' ', '"', '\\', '\n', '\0', '\u{e9}', '\u{1F600}', '\u{2028}'])).collect()
}
fn object(src: &mut Src, depth: u32) -> Object {
    let n = src.count(2, 6);
    let mut o = BTreeMap::new();
    for _ in 0..n {
        let k = src.pick(KEYS).to_string();
        let v = value(src, depth);
        o.insert(k, v);
    }
    o
}

fn c29_values(src: &mut Src, case: &mut Case) {
    let v = value(src, 3);
    case.set_input(format!("{:?}", v));
    case.nontrivial = v != Value::Null;
    case.class(type_word(type_of(&v)));
    if v.ty() != type_of(&v) {
        return case.fail(format!("the type of {:?} is {}", v, v.ty()));
    }
    for &r in REQS {
        for &opt in &[false, true] {
            case.subcases += 1;
            let want = model(&v, r, opt);
            let before = v.clone();
            match catch(|| through_value(&v, r, opt)) {
                Err(p) => return case.fail(format!("reading it as {}: {}", word(r, opt), p)),
                Ok(ref got) if same_answer(got, &want) => (),
                Ok(got) => return case.fail(format!("reading it as {}: expected {:?}, got {:?}", word(r, opt), want, got)),
            }
            if !same_value(&v, &before) {
                return case.fail(format!("reading it as {} changes it to {:?}", word(r, opt), v));
            }
        }
    }
}

/// A history of reading and taking fields, against a map of our own.
fn c29_history(src: &mut Src, case: &mut Case) {
    let mut real = object(src, 2);
    let mut mine = real.clone();
    case.set_input(format!("{:?}", real));
    let n = 1 + src.count(6, 24);
    let mut took = 0;
    for _ in 0..n {
        let k = *src.pick(KEYS);
        let r = *src.pick(REQS);
        let opt = src.bool();
        case.subcases += 1;
        let what;
        match src.below(7) {
            0 => {
                what = format!("get_field {:?}", k);
                let want = mine.get(k).ok_or(Error::MissingField(k));
                let got = match catch(|| real.get_field(k)) {
                    Err(p) => return case.fail(format!("{}: {}", what, p)),
                    Ok(g) => g,
                };
                match (&want, &got) {
                    (&Ok(a), &Ok(b)) if same_value(a, b) => (),
                    (&Err(ref a), &Err(ref b)) if a == b => (),
                    _ => return case.fail(format!("{}: expected {:?}, got {:?}", what, want, got)),
                }
            }
            1 => {
                what = format!("extract_field {:?}", k);
                let want = mine.remove(k).ok_or(Error::MissingField(k));
                took += want.is_ok() as u32;
                let got = match catch(|| real.extract_field(k)) {
                    Err(p) => return case.fail(format!("{}: {}", what, p)),
                    Ok(g) => g,
                };
                if !same_answer(&want.clone_answer(), &got.clone_answer()) {
                    return case.fail(format!("{}: expected {:?}, got {:?}", what, want, got));
                }
            }
            2 | 3 | 4 => {
                what = format!("get {} {:?}", word(r, opt), k);
                let want = match mine.get(k) {
                    Some(v) => model(v, r, opt),
                    None => Err(Error::MissingField(k)),
                };
                match catch(|| through_get(&real, k, r, opt)) {
                    Err(p) => return case.fail(format!("{}: {}", what, p)),
                    Ok(ref got) if same_answer(got, &want) => (),
                    Ok(got) => return case.fail(format!("{}: expected {:?}, got {:?}", what, want, got)),
                }
            }
            _ => {
                what = format!("extract {} {:?}", word(r, opt), k);
                let want = match mine.get(k) {
                    Some(v) => model(v, r, opt),
                    None => Err(Error::MissingField(k)),
                };
                match catch(|| through_extract(&mut real, k, r, opt)) {
                    Err(p) => return case.fail(format!("{}: {}", what, p)),
                    Ok(ref got) if same_answer(got, &want) => (),
                    Ok(got) => return case.fail(format!("{}: expected {:?}, got {:?}", what, want, got)),
                }
                // a field of the wrong type may be left or taken
                if want.is_ok() || !real.contains_key(k) {
                    took += mine.remove(k).is_some() as u32;
                }
            }
        }
        case.input.push_str(&format!("; {}", what));
        if !same_object(&real, &mine) {
            return case.fail(format!("after {}, the object is {:?} instead of {:?}", what, real, mine));
        }
    }
    case.nontrivial = took > 0;
    case.class(format!("{} taken", took.min(4)));
}

trait CloneAnswer {
    fn clone_answer(&self) -> Answer;
}
impl CloneAnswer for Result<Value, Error> {
    fn clone_answer(&self) -> Answer {
        match *self {
            Ok(ref v) => Ok(Some(v.clone())),
            Err(Error::MissingField(k)) => Err(Error::MissingField(k)),
            Err(_) => Err(Error::IndexOutOfBounds(0, 0)),
        }
    }
}

/// The errors carry what they were given, and their text says so.
fn c29_errors(src: &mut Src, case: &mut Case) {
    let expected = *src.pick(KEYS);
    let v = value(src, 1);
    let (a, b) = (src.below(1000) as usize, src.below(1000) as usize);
    let t = string(src);
    case.set_input(format!("{:?} {:?} {} {} {:?}", expected, v, a, b, t));
    case.nontrivial = true;
    let w = type_word(type_of(&v));
    if v.ty().to_string() != w {
        return case.fail(format!("type {} is displayed as {}", w, v.ty()));
    }
    fn after<'a>(s: &'a str, w: &str) -> &'a str {
        s.find(w).map(|i| &s[i + w.len()..]).unwrap_or("")
    }
    let check = |case: &mut Case, e: Result<(), Error>, want: Error, holds: &dyn Fn(&str) -> bool| {
        match e {
            Err(ref e) if *e == want => {
                let s = e.to_string();
                case.check(holds(&s), || format!("{:?} is displayed as {:?}", want, s));
            }
            e => case.fail(format!("expected {:?}, got {:?}", want, e)),
        };
    };
    check(case, error::type_error(expected, v.ty()), Error::TypeMismatch(expected, v.ty()), &|s| after(s, "expected").contains(expected) && after(s, "got").contains(w));
    check(case, error::field_error(expected), Error::MissingField(expected), &|s| s.contains(&format!("'{}'", expected)));
    check(case, error::array_error(a, b), Error::WrongArrayLength(a, b), &|s| {
        let e = after(s, "expected");
        e.split("got").next().unwrap().contains(&format!(" {}", a)) && after(s, "got").contains(&format!(" {}", b))
    });
    check(case, error::index_error(a, b), Error::IndexOutOfBounds(a, b), &|s| after(s, "index").contains(&format!(" {} ", b)) && after(s, "length").contains(&format!(" {}", a)));
    check(case, error::string_error(expected, t.clone()), Error::IllegalString(expected, t.clone()), &|s| {
        after(s, "expected").contains(expected) && after(s, "got").contains(&format!("{:?}", t))
    });
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C29",
        rule: "values other than null, histories that take at least one field, errors of every kind",
        subs: vec![
            sub("values", c29_values, 500000, 2500000),
            sub("histories", c29_history, 1000000, 5000000),
            sub("errors", c29_errors, 100000, 500000),
        ],
        assumptions: vec![
            "an integer has the types i64 and u64 if it fits, however it is stored; every number has the types f64 and number",
            "a field whose content has the wrong type may be taken or left",
        ],
    }]
}
