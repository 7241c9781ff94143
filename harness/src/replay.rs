//! Replays behaviours exported by TLC into the real reader and compares.
//!
//! Input: TLC's output; the lines that are JSON texts in quotes are used.
//!   {"alphabet": [[code points]...]}             the lines documents are made of
//!   {"d": [indices], "fault": [...], "exp": [events]}   a behaviour
//! With "stop" other than "end" the behaviour stops at an error: what follows in the file must not
//! matter, so an entry more is put after it (after the failure, if the stream fails).
//! With --any only the end of the reading matters: no panic, no endless return, no excessive work.
//! With --deliver every behaviour is replayed with several ways of reading and line ends.
use crate::{doc, ops};
use poreader::PoParser;
use serde_json::{json, Value};
use std::{
    cell::RefCell,
    io::{self, BufRead, Write},
};

fn canon(key: &str, v: &Value) -> Value {
    match (key, v) {
        ("flags", Value::Array(a)) | ("props", Value::Array(a)) => {
            let mut t: Vec<String> = a.iter().map(|x| x.to_string()).collect();
            t.sort();
            json!(t)
        }
        _ => v.clone(),
    }
}

/// The keys of the expected event whose values differ in the recorded one.
pub fn differ(exp: &Value, got: &Value) -> Vec<String> {
    let mut res = vec![];
    for (k, v) in exp.as_object().unwrap() {
        let same = match got.get(k) {
            None => false,
            Some(g) if k == "pulled" || k == "lo" => g.as_u64() <= v.as_u64(),
            // -1: no bound given
            Some(g) if k == "hi" => g.as_i64() < Some(0) || g.as_i64() >= v.as_i64(),
            Some(g) => canon(k, v) == canon(k, g),
        };
        if !same {
            res.push(k.clone());
        }
    }
    res
}

fn text_line(v: &Value) -> String {
    doc::text_of(v)
}

pub fn main(args: &[String]) {
    let deliver = args.iter().any(|a| a == "--deliver");
    let any = args.iter().any(|a| a == "--any");
    let mut alphabet: Vec<Value> = vec![];
    let mut cases: Vec<String> = vec![];
    for l in io::stdin().lock().lines() {
        let l = l.unwrap();
        if !l.starts_with("\"{") {
            continue;
        }
        let inner: String = match serde_json::from_str(&l) {
            Ok(s) => s,
            Err(_) => continue,
        };
        if inner.starts_with("{\"alphabet\"") {
            let v: Value = serde_json::from_str(&inner).unwrap();
            alphabet = v["alphabet"].as_array().unwrap().clone();
        } else {
            cases.push(inner);
        }
    }
    let lines: Vec<String> = alphabet.iter().map(text_line).collect();
    let n = cases.len();
    let out = ops::parallel(cases, |c| {
        let v: Value = serde_json::from_str(c).expect("bad case");
        let mut rec = complete(v, &lines);
        if any && rec["op"] != json!("big") {
            rec["any"] = json!(true);
            rec["exhaust"] = json!(true);
        }
        if !deliver {
            return compare(&rec);
        }
        deliveries(rec).iter().map(compare).find(|r| !r.is_empty()).unwrap_or_default()
    });
    let stdout = io::stdout();
    let mut o = stdout.lock();
    let mut bad = 0;
    for r in out {
        if !r.is_empty() {
            bad += 1;
            if bad <= 50 {
                writeln!(o, "{}", r).unwrap();
            }
        }
    }
    writeln!(o, "{}", json!({"replayed": n, "mismatches": bad})).unwrap();
}

/// Turns line indices into bytes.
fn complete(mut v: Value, lines: &[String]) -> Value {
    let mk = |d: &Value, v: &Value| -> Value {
        let eol = v["eol"].as_str().unwrap_or("\n");
        let idx: Vec<usize> = d.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize - 1).collect();
        let last = idx.len();
        let open = v["open"] == json!(true);
        json!(idx
            .iter()
            .enumerate()
            .map(|(i, &k)| format!("{}{}", lines[k], if open && i + 1 == last { "" } else { eol }))
            .collect::<Vec<_>>())
    };
    if v["d"].is_array() {
        let s = mk(&v["d"], &v);
        v["segs"] = s;
    } else if v["lines"].is_array() {
        // given as text
        let eol = v["eol"].as_str().unwrap_or("\n").to_string();
        let open = v["open"] == json!(true);
        let a: Vec<String> = v["lines"].as_array().unwrap().iter().map(text_line).collect();
        let last = a.len();
        v["segs"] = json!(a
            .iter()
            .enumerate()
            .map(|(i, l)| format!("{}{}", l, if open && i + 1 == last { "" } else { &eol }))
            .collect::<Vec<_>>());
    }
    if let Some(docs) = v["docs"].as_array().cloned() {
        let docs: Vec<Value> = docs
            .into_iter()
            .map(|mut d| {
                if d["d"].is_array() {
                    d["segs"] = mk(&d["d"], &d);
                }
                d
            })
            .collect();
        v["docs"] = json!(docs);
    }
    let stop = v["stop"].as_str().unwrap_or("end").to_string();
    if stop != "end" && v["op"].is_null() {
        let tail = "\nmsgid \"tail\"\nmsgstr \"tail\"\n\nmsgid \"tail 2\"\nmsgstr \"tail 2\"\n";
        if v["fault"].as_array().map_or(false, |a| !a.is_empty()) {
            v["poison"] = json!(tail);
        } else {
            let last = v["segs"].as_array().and_then(|a| a.last()).cloned();
            let ended = match &last {
                Some(Value::String(s)) => s.ends_with('\n'),
                Some(Value::Array(a)) => a.last() == Some(&json!(10)),
                _ => false,
            };
            if ended {
                let segs = v["segs"].as_array_mut().unwrap();
                segs.extend(tail.split_inclusive('\n').map(|l| json!(l)));
            }
        }
    }
    v
}

/// The same document, delivered and written otherwise.
fn deliveries(v: Value) -> Vec<Value> {
    let mut res = vec![v.clone()];
    let bytes = |s: &Value| -> Vec<u8> {
        match s {
            Value::String(s) => s.clone().into_bytes(),
            Value::Array(a) => a.iter().map(|x| x.as_u64().unwrap() as u8).collect(),
            _ => vec![],
        }
    };
    let segs: Vec<Vec<u8>> = v["segs"].as_array().map(|a| a.iter().map(bytes).collect()).unwrap_or_default();
    let crlf: Vec<Vec<u8>> = segs
        .iter()
        .map(|s| {
            let mut s = s.clone();
            if s.last() == Some(&b'\n') && (s.len() == 1 || s[s.len() - 2] != b'\r') {
                s.pop();
                s.extend(b"\r\n");
            }
            s
        })
        .collect();
    // an empty last line would disappear with its end; a failing stream loses an unfinished line
    let mut open = segs.clone();
    let fault = v["fault"].as_array().map_or(false, |a| !a.is_empty());
    if let Some(l) = open.last_mut() {
        if !fault && l.len() > 1 && l.last() == Some(&b'\n') && l[l.len() - 2] != b'\r' {
            l.pop();
        }
    }
    for s in [&segs, &crlf, &open] {
        for sizes in [&[1usize][..], &[2], &[3, 5], &[0, 1], &[7, 0, 0, 1], &[1 << 20]] {
            let mut w = v.clone();
            w["segs"] = json!(s);
            w["sizes"] = json!(sizes);
            res.push(w);
        }
    }
    res
}

thread_local! {
    /// One parser serves several behaviours, then is renewed.
    static PARSER: RefCell<(usize, PoParser)> = RefCell::new((0, PoParser::new()));
}

fn observe(v: &Value, fresh: bool) -> Vec<Value> {
    match v["op"].as_str() {
        None | Some("run") => {
            let mut d = doc::Doc::from_json(v);
            d.extra = 2;
            if fresh {
                return doc::run_doc(&d, &PoParser::new());
            }
            PARSER.with(|p| {
                let mut p = p.borrow_mut();
                p.0 += 1;
                if p.0 % 50 == 0 {
                    p.1 = PoParser::new();
                }
                doc::run_doc(&d, &p.1)
            })
        }
        _ => PARSER.with(|p| {
            let fresh_parser;
            let mut p = p.borrow_mut();
            p.0 += 1;
            if p.0 % 50 == 0 {
                p.1 = PoParser::new();
            }
            let parser = if fresh {
                fresh_parser = PoParser::new();
                &fresh_parser
            } else {
                &p.1
            };
            ops::perform(v.clone(), parser)["evs"].as_array().unwrap().clone()
        }),
    }
}

/// Only that reading it ends well.
fn ends_well(v: &Value) -> String {
    PARSER.with(|p| {
        let r = ops::perform(v.clone(), &p.borrow().1);
        let evs = r["evs"].as_array().unwrap();
        let bad = evs.iter().position(|e| ["panic", "runaway", "inconsistent"].contains(&e["ev"].as_str().unwrap()));
        if let Some(k) = bad {
            return report(v, k, vec![evs[k]["ev"].as_str().unwrap().to_string()], evs);
        }
        let size = v["segs"].as_array().map_or(0, |a| a.iter().map(|s| s.as_array().map_or(0, |b| b.len())).sum());
        if r["work"].as_u64().unwrap() > doc::allowance(size) {
            return report(v, 0, vec!["work".into()], evs);
        }
        String::new()
    })
}

fn compare(v: &Value) -> String {
    if v["any"] == json!(true) {
        return ends_well(v);
    }
    let exp = v["exp"].as_array().expect("exp");
    let evs = observe(v, false);
    // every expected return must be there, and nothing more than the behaviour says
    for (k, e) in exp.iter().enumerate() {
        match evs.get(k) {
            None => return report(v, k, vec!["missing".into()], &evs),
            Some(g) => {
                let mut df = differ(e, g);
                if v["sizes"].is_array() {
                    df.retain(|k| k != "pulled");
                }
                if !df.is_empty() {
                    return report(v, k, df, &evs);
                }
            }
        }
    }
    if evs.len() > exp.len() {
        return report(v, exp.len(), vec!["surplus".into()], &evs);
    }
    String::new()
}

fn report(v: &Value, k: usize, why: Vec<String>, evs: &[Value]) -> String {
    let mut r = v.clone();
    let o = r.as_object_mut().unwrap();
    o.insert("evs".into(), json!(evs));
    o.insert("at".into(), json!(k + 1));
    o.insert("why".into(), json!(why));
    // does it depend on what the parser did before?
    if v["any"] != json!(true) {
        let alone = observe(v, true);
        o.insert("alone".into(), json!(alone == evs));
    }
    r.to_string()
}
