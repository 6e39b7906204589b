//! An independent parser, acorn under node, as a line server; one process per thread.
use crate::astgen::Goal;
use crate::estree_enc::Enc;
use easter::stmt::Script;
use serde_json::value::Value;
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

struct Server {
    child: Child,
    input: Option<ChildStdin>,
    output: BufReader<ChildStdout>,
}

impl Server {
    fn start() -> Server {
        let script = concat!(env!("CARGO_MANIFEST_DIR"), "/js/acorn.js");
        let mut child = match Command::new("node").args(["--no-warnings", "--experimental-vm-modules", script]).stdin(Stdio::piped()).stdout(Stdio::piped()).spawn() {
            Ok(c) => c,
            Err(e) => broken(&format!("cannot start node: {}", e)),
        };
        let input = child.stdin.take();
        let output = BufReader::new(child.stdout.take().unwrap());
        Server { child, input, output }
    }
    fn ask(&mut self, line: &str) -> String {
        let mut s = String::new();
        let ok = self.input.as_mut().unwrap().write_all(line.as_bytes()).is_ok() && self.output.read_line(&mut s).is_ok();
        if !ok || !s.ends_with('\n') {
            broken("the acorn server went away");
        }
        s.pop();
        if s.starts_with("broken") {
            broken(&s);
        }
        s
    }
}
impl Drop for Server {
    fn drop(&mut self) {
        self.input.take();
        let _ = self.child.wait();
    }
}

fn broken(why: &str) -> ! {
    eprintln!("{}", why);
    std::process::exit(3)
}

thread_local! {
    static SERVER: RefCell<Option<Server>> = RefCell::new(None);
}

fn quote(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            c if (c as u32) < 0x20 || c == '\u{7f}' => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
}

/// Numbers by their bits, so that nothing depends on how they are written.
fn json(v: &Value, out: &mut String) {
    match *v {
        Value::Null => out.push_str("null"),
        Value::Bool(b) => out.push_str(if b { "true" } else { "false" }),
        Value::I64(n) => number(n as f64, out),
        Value::U64(n) => number(n as f64, out),
        Value::F64(n) => number(n, out),
        Value::String(ref s) => quote(s, out),
        Value::Array(ref l) => {
            out.push('[');
            for (i, x) in l.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                json(x, out);
            }
            out.push(']');
        }
        Value::Object(ref o) => {
            out.push('{');
            for (i, (k, x)) in o.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                quote(k, out);
                out.push(':');
                if k == "flags" {
                    let mut cs: Vec<char> = x.as_str().unwrap_or("").chars().collect();
                    cs.sort();
                    quote(&cs.into_iter().collect::<String>(), out);
                } else {
                    json(x, out);
                }
            }
            out.push('}');
        }
    }
}
fn number(n: f64, out: &mut String) {
    out.push_str(&format!("{{\"bits\":\"{:016x}\"}}", n.to_bits()));
}

/// acorn's verdict on a text and the tree the parser under test made of it.
pub fn compare(goal: Goal, text: &str, tree: Option<&Script>) -> String {
    let mut line = format!("{{\"goal\":\"{:?}\",\"text\":", goal);
    quote(text, &mut line);
    line.push_str(",\"tree\":");
    match tree {
        None => line.push_str("null"),
        Some(t) => {
            let mut e = Enc::plain();
            e.directives = true;
            json(&e.script(t), &mut line);
        }
    }
    line.push_str("}\n");
    SERVER.with(|s| s.borrow_mut().get_or_insert_with(Server::start).ask(&line))
}

/// Numbers back from their bits.
fn unbits(v: Value) -> Value {
    match v {
        Value::Array(l) => Value::Array(l.into_iter().map(unbits).collect()),
        Value::Object(o) => {
            if let (1, Some(&Value::String(ref b))) = (o.len(), o.get("bits")) {
                return Value::F64(f64::from_bits(u64::from_str_radix(b, 16).unwrap()));
            }
            Value::Object(o.into_iter().map(|(k, x)| (k, unbits(x))).collect())
        }
        v => v,
    }
}

/// The document another parser ("acorn", of some version of the language, or "esprima") makes of a text.
pub fn document(goal: Goal, text: &str, parser: &str, version: u64, extras: bool) -> Result<Value, String> {
    let mut line = format!("{{\"goal\":\"{:?}\",\"doc\":\"{}\",\"version\":{},\"extras\":{},\"text\":", goal, parser, version, extras);
    quote(text, &mut line);
    line.push_str("}\n");
    let a = SERVER.with(|s| s.borrow_mut().get_or_insert_with(Server::start).ask(&line));
    if !a.starts_with("doc ") {
        return Err(a);
    }
    match serde_json::from_str(&a[4..]) {
        Ok(v) => Ok(unbits(v)),
        Err(e) => broken(&format!("the acorn server answers with {}: {}", a, e)),
    }
}

/// Where acorn meets the first token that cannot be there, where that is its complaint.
pub fn blame(goal: Goal, text: &str) -> Option<u32> {
    let mut line = format!("{{\"goal\":\"{:?}\",\"blame\":true,\"text\":", goal);
    quote(text, &mut line);
    line.push_str("}\n");
    let a = SERVER.with(|s| s.borrow_mut().get_or_insert_with(Server::start).ask(&line));
    if a.starts_with("at ") {
        a[3..].trim().parse().ok()
    } else {
        None
    }
}
