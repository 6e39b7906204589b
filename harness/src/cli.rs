//! Command line: run a check, write its evidence, report violations and known findings.
use crate::engine::{self, Check, Failure, Outcome};
use std::fmt::Write as _;
use std::fs;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::Instant;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        s.chars().take(n).chain("…".chars()).collect()
    }
}

fn evidence(check: &Check, out: &Outcome, seed: u64, tier: &str, wall: f64) -> String {
    let mut s = String::new();
    let _ = write!(
        s,
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"exhaustive\": {},\n",
        js(check.id), js(tier), seed, out.evaluations, out.distinct, js(check.rule), out.exhaustive
    );
    s.push_str("  \"parts\": [");
    for (i, (n, e, d)) in out.per_sub.iter().enumerate() {
        let _ = write!(s, "{}\n   {{\"name\": {}, \"evaluations\": {}, \"distinct_nontrivial\": {}}}", if i > 0 { "," } else { "" }, js(n), e, d);
    }
    s.push_str("\n  ],\n  \"classes\": {");
    for (i, (k, v)) in out.classes.iter().enumerate() {
        let _ = write!(s, "{}\n   {}: {}", if i > 0 { "," } else { "" }, js(k), v);
    }
    s.push_str("\n  },\n  \"samples\": [");
    for (i, (n, t)) in out.samples.iter().enumerate() {
        let _ = write!(s, "{}\n   {{\"part\": {}, \"case\": {}}}", if i > 0 { "," } else { "" }, js(n), js(&clip(t, 1500)));
    }
    s.push_str("\n  ]\n },\n \"assumptions\": [");
    for (i, a) in check.assumptions.iter().enumerate() {
        let _ = write!(s, "{}\n  {}", if i > 0 { "," } else { "" }, js(a));
    }
    let _ = write!(s, "\n ],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", wall, if out.failure.is_some() { 1 } else { 0 });
    s
}

fn write_replay(path: &Path, id: &str, sub: &str, choices: &[u64], input: &str, message: &str, seed: u64) {
    let mut s = String::new();
    let _ = write!(s, "{{\n \"property\": {},\n \"part\": {},\n \"seed\": {},\n \"message\": {},\n \"input\": {},\n \"choices\": [", js(id), js(sub), seed, js(message), js(input));
    for (i, c) in choices.iter().enumerate() {
        let _ = write!(s, "{}{}", if i > 0 { ", " } else { "" }, c);
    }
    s.push_str("]\n}\n");
    let _ = fs::write(path, s);
}

fn known_file(dir: &Path) -> Vec<(String, String)> {
    // lines: "KNOWN property=<id> <signature>"; lines starting "fixed:" suppress nothing
    let text = fs::read_to_string(dir.join("known-findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("KNOWN property=")?;
            let (id, sig) = l.split_once(' ')?;
            Some((id.to_string(), sig.trim().to_string()))
        })
        .collect()
}

pub fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    engine::install_hook();
    let code = match args.first().map(|s| s.as_str()) {
        Some("check") => {
            let dir = args.get(2).map(PathBuf::from).unwrap_or("/verif".into());
            match std::env::var("VH_SLOTS") {
                Ok(p) => {
                    engine::set_slot_file(p.into());
                    check(&args[1], dir)
                }
                Err(_) => supervise(&args[1], dir),
            }
        }
        Some("case") => case(&args[1..]),
        Some("replay") => replay(&args[1]),
        // Development aid: print what the parser makes of a text.
        Some("parse") => {
            let text = if args[2] == "-" { std::io::read_to_string(std::io::stdin()).unwrap() } else { args[2].clone() };
            match args[1].as_str() {
                "strict" => println!("{:#?}", esprit::strict(&text)),
                "module" => println!("{:#?}", esprit::module(&text)),
                "program" => println!("{:#?}", esprit::program(&text)),
                _ => println!("{:#?}", esprit::script(&text)),
            }
            0
        }
        Some("list") => {
            for c in crate::checks() {
                println!("{}", c.id);
            }
            0
        }
        _ => {
            eprintln!("usage: vh check ID [DIR] | replay FILE | list");
            2
        }
    };
    std::process::exit(code);
}

fn check(id: &str, dir: PathBuf) -> i32 {
    let checks = crate::checks();
    let check = match checks.iter().find(|c| c.id == id) {
        Some(c) => c,
        None => {
            eprintln!("no check {}", id);
            return 2;
        }
    };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let limit: u64 = if thorough { 6 * 3600 } else { 780 };
    std::thread::spawn(move || {
        std::thread::sleep(std::time::Duration::from_secs(limit));
        eprintln!("watchdog: the check did not finish in {} s (no verdict)", limit);
        std::process::exit(4);
    });
    engine::watch(CASE_LIMIT, 16000);
    let start = Instant::now();
    let known = known_file(&dir);
    engine::set_known(known.iter().filter(|k| k.0 == id).map(|k| k.1.clone()).collect());
    let out = engine::run_check(check, seed, thorough, scale);
    report(check, &dir, &out, seed, thorough, start)
}

fn report(check: &Check, dir: &Path, out: &Outcome, seed: u64, thorough: bool, start: Instant) -> i32 {
    let id = check.id;
    let wall = start.elapsed().as_secs_f64();
    let tier = if thorough { "thorough" } else { "quick" };
    let _ = fs::create_dir_all(dir.join("evidence"));
    if let Err(e) = fs::write(dir.join("evidence").join(format!("{}.json", id)), evidence(check, out, seed, tier, wall)) {
        eprintln!("cannot write evidence: {}", e);
        return 2;
    }
    for (n, e, d) in &out.per_sub {
        println!("{} {}: {} evaluations, {} distinct non-trivial", id, n, e, d);
    }
    for sig in out.known.keys() {
        println!("KNOWN-FINDING: property={} {}", id, sig);
    }
    if let Some(ref f) = out.failure {
        let _ = fs::create_dir_all(dir.join("replays"));
        let path = dir.join("replays").join(format!("{}.json", id));
        write_replay(&path, id, check.subs[f.sub].name, &f.choices, &f.input, &f.message, seed);
        println!("{} part {} fails", id, check.subs[f.sub].name);
        println!("input: {}", clip(&f.input, 3000));
        println!("failure: {}", clip(&f.message, 3000));
        println!("VIOLATION property={} replay={}", id, path.display());
        return 1;
    }
    println!("{} held on {} evaluations ({} distinct non-trivial), {:.1} s", id, out.evaluations, out.distinct, wall);
    0
}


/// Seconds a single case may take; they take milliseconds.
const CASE_LIMIT: u64 = 30;

/// Runs the check in a process of its own, so that a case that overflows the stack, aborts, eats
/// the memory or never returns is found, confirmed, shrunk and reported like any other failure.
fn supervise(id: &str, dir: PathBuf) -> i32 {
    let start = Instant::now();
    let scratch = std::env::temp_dir().join(format!("vh-{}-{}", id, std::process::id()));
    let _ = fs::create_dir_all(&scratch);
    let code = supervised(id, dir, &scratch, start);
    let _ = fs::remove_dir_all(&scratch);
    code
}

fn supervised(id: &str, dir: PathBuf, scratch: &Path, start: Instant) -> i32 {
    let slots = scratch.join("slots");
    let exe = std::env::current_exe().unwrap();
    let status = match Command::new(&exe).arg("check").arg(id).arg(&dir).env("VH_SLOTS", &slots).status() {
        Ok(s) => s,
        Err(e) => {
            eprintln!("cannot start the check: {}", e);
            return 2;
        }
    };
    match status.code() {
        Some(engine::STUCK) | None => {}
        Some(c) => return c,
    }
    eprintln!("{}: the run ended early ({}); looking for the case", id, status);
    let checks = crate::checks();
    let check = checks.iter().find(|c| c.id == id).unwrap();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let found = engine::read_slots(&fs::read(&slots).unwrap_or_default());
    let mut out = Outcome {
        evaluations: found.iter().map(|s| s.3).sum(),
        distinct: 0,
        classes: Default::default(),
        per_sub: vec![],
        samples: vec![],
        failure: None,
        known: Default::default(),
        exhaustive: false,
    };
    if let Ok(text) = fs::read_to_string(slots.with_extension("best")) {
        // it had already failed and was being shrunk
        if let Ok((sub, choices, input, message)) = serde_json::from_str::<(String, Vec<u64>, String, String)>(&text) {
            let sub = check.subs.iter().position(|s| s.name == sub).unwrap_or(0);
            out.failure = Some(Failure { sub, choices, input, message });
            return report(check, &dir, &out, seed, thorough, start);
        }
    }
    for &(active, sub, i, _) in found.iter() {
        if active != 1 || sub as usize >= check.subs.len() {
            continue;
        }
        let s = &check.subs[sub as usize];
        let first = match single(&exe, id, s.name, &format!("seed {} {}", seed, i), scratch, CASE_LIMIT) {
            Some(f) => f,
            None => continue,
        };
        eprintln!("{}: case {} of {}: {}", id, i, s.name, first.2);
        // a candidate that hangs costs its whole limit, which is therefore short while shrinking
        let mut run = |c: Vec<u64>| {
            let text: Vec<String> = c.iter().map(|x| x.to_string()).collect();
            single(&exe, id, s.name, &format!("choices {}", text.join(" ")), scratch, 2)
        };
        let found = engine::shrink(&mut run, first.clone(), &|_| (), 90);
        let text: Vec<String> = found.0.iter().map(|x| x.to_string()).collect();
        let (choices, input, message) =
            single(&exe, id, s.name, &format!("choices {}", text.join(" ")), scratch, CASE_LIMIT).unwrap_or(first);
        out.failure = Some(Failure { sub: sub as usize, choices, input, message });
        return report(check, &dir, &out, seed, thorough, start);
    }
    eprintln!("{}: no single case explains it (no verdict)", id);
    4
}

/// Runs one case in a process of its own; what it fails with, if it does.
fn single(exe: &Path, id: &str, part: &str, spec: &str, scratch: &Path, secs: u64) -> Option<engine::Failing> {
    let (fspec, ftrace, fout) = (scratch.join("spec"), scratch.join("trace"), scratch.join("out"));
    let _ = fs::remove_file(&fout);
    let _ = fs::remove_file(ftrace.with_extension("input"));
    fs::write(&fspec, spec).ok()?;
    let mut child = Command::new(exe)
        .arg("case").arg(id).arg(part).arg(&fspec).arg(&ftrace).arg(&fout).arg(secs.to_string())
        .env_remove("VH_SLOTS")
        .stderr(Stdio::null())
        .spawn()
        .ok()?;
    let status = child.wait().ok()?;
    let choices = || -> Vec<u64> {
        fs::read_to_string(&ftrace).unwrap_or_default().split_whitespace().filter_map(|x| x.parse().ok()).collect()
    };
    let input = || fs::read_to_string(ftrace.with_extension("input")).unwrap_or("(not known; replay the choices)".to_string());
    match status.code() {
        Some(0) => None,
        Some(1) => {
            let (rec, input, msg) = serde_json::from_str(&fs::read_to_string(&fout).ok()?).ok()?;
            Some((rec, input, msg))
        }
        Some(engine::STUCK) => Some((choices(), input(), format!("does not return within {} s, or uses more than 4 GB", secs))),
        None => Some((choices(), input(), format!("ends the process: {}", status))),
        Some(_) => None,
    }
}

/// case ID PART SPEC TRACE OUT SECS
fn case(a: &[String]) -> i32 {
    let checks = crate::checks();
    let check = checks.iter().find(|c| c.id == a[0]).expect("property");
    let sub = check.subs.iter().find(|s| s.name == a[1]).expect("part");
    let spec = fs::read_to_string(&a[2]).expect("spec");
    let nums: Vec<u64> = spec.split_whitespace().skip(1).map(|x| x.parse().unwrap()).collect();
    let src = if spec.starts_with("seed") { engine::first_src(check, sub, nums[0], nums[1]) } else { engine::Src::replay(nums) };
    engine::watch(a[5].parse().unwrap(), 4000);
    let _ = engine::INPUT_FILE.set(PathBuf::from(&a[3]).with_extension("input"));
    let (case, rec) = engine::case_in_thread(sub.prop, src.traced(fs::File::create(&a[3]).expect("trace")));
    match case.failure {
        None => 0,
        Some(m) => {
            fs::write(&a[4], serde_json::to_string(&(rec, case.input, m)).unwrap()).expect("out");
            1
        }
    }
}

fn replay(path: &str) -> i32 {
    let text = fs::read_to_string(path).expect("replay file");
    let v: serde_json::Value = serde_json::from_str(&text).expect("json");
    let o = v.as_object().unwrap();
    let id = o["property"].as_str().unwrap();
    let part = o["part"].as_str().unwrap();
    let choices: Vec<u64> = o["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
    let checks = crate::checks();
    let check = checks.iter().find(|c| c.id == id).expect("property");
    let sub = check.subs.iter().find(|s| s.name == part).expect("part");
    let case = engine::case_in_thread(sub.prop, engine::Src::replay(choices)).0;
    println!("input: {}", case.input);
    match case.failure {
        Some(m) => {
            println!("failure: {}", m);
            println!("VIOLATION property={} replay={}", id, path);
            1
        }
        None => {
            println!("holds");
            0
        }
    }
}
