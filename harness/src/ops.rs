//! The operations a document may ask for.
use crate::{
    doc::{self, error_event, run_doc_work, text_of, unit_event, Doc, Run},
    script::{kind_of, Fault, Script},
};
use poreader::{error::Error, unit::Unit, CatalogueReader, Message, PoParser, PoReader};
use serde_json::{json, Value};
use std::{
    io,
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicUsize, Ordering},
        Mutex,
    },
    time::{Duration, Instant},
};

/// Longest time one document may take: reading it takes milliseconds.
const LIMIT: Duration = Duration::from_secs(20);

/// Applies f to every line, on all processors; a line that takes too long ends the process,
/// its number being written to stderr.
pub fn parallel<F: Fn(&str) -> String + Sync>(lines: Vec<String>, f: F) -> Vec<String> {
    let next = AtomicUsize::new(0);
    let done = AtomicUsize::new(0);
    let out: Vec<Mutex<String>> = lines.iter().map(|_| Mutex::new(String::new())).collect();
    let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
    let busy: Vec<Mutex<Option<(usize, Instant)>>> = (0..n).map(|_| Mutex::new(None)).collect();
    std::thread::scope(|s| {
        for w in 0..n {
            let (next, done, out, busy, lines, f) = (&next, &done, &out, &busy, &lines, &f);
            std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn_scoped(s, move || {
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= lines.len() {
                            break;
                        }
                        *busy[w].lock().unwrap() = Some((i, Instant::now()));
                        let r = f(&lines[i]);
                        *out[i].lock().unwrap() = r;
                        *busy[w].lock().unwrap() = None;
                    }
                    done.fetch_add(1, Ordering::SeqCst);
                })
                .unwrap();
        }
        let (done, busy) = (&done, &busy);
        s.spawn(move || {
            while done.load(Ordering::SeqCst) < n {
                std::thread::sleep(Duration::from_millis(5));
                for b in busy {
                    if let Some((i, t)) = *b.lock().unwrap() {
                        if t.elapsed() > LIMIT {
                            eprintln!("TIMEOUT {}", i);
                            std::process::exit(3);
                        }
                    }
                }
            }
        });
    });
    out.into_iter().map(|m| m.into_inner().unwrap()).collect()
}

pub fn perform(mut v: Value, parser: &PoParser) -> Value {
    let mut work = 0;
    let evs = match v["op"].as_str().unwrap_or("run") {
        "run" => {
            let (evs, w) = run_doc_work(&Doc::from_json(&v), parser);
            work = w;
            evs
        }
        "multi" => multi(&v, parser),
        "use" => using(&v),
        "formula" => {
            let (evs, w) = formula(&v, parser);
            work = w;
            evs
        }
        "big" => {
            // what is repeated along a file is read in a bounded stack, however long the file
            let kb = v["stack"].as_u64().unwrap_or(8 << 10) as usize;
            let (ev, w) = std::thread::scope(|s| {
                let v = &v;
                std::thread::Builder::new()
                    .stack_size(kb << 10)
                    .spawn_scoped(s, move || big(v, &PoParser::new()))
                    .unwrap()
                    .join()
                    .unwrap()
            });
            work = w;
            vec![ev]
        }
        "err" => make_error(&v),
        "eq" => equality(&v, parser),
        op => panic!("unknown op {}", op),
    };
    let o = v.as_object_mut().unwrap();
    o.insert("evs".into(), Value::Array(evs));
    o.insert("work".into(), json!(work.min(1 << 30)));
    v
}

/// Several readers of one parser; the schedule says whose call is next.
pub fn multi(v: &Value, parser: &PoParser) -> Vec<Value> {
    let docs: Vec<Doc> = v["docs"].as_array().unwrap().iter().map(Doc::from_json).collect();
    let mut runs: Vec<Option<Run>> = docs.iter().map(|_| None).collect();
    let mut evs = vec![];
    for i in v["schedule"].as_array().unwrap() {
        let i = i.as_i64().unwrap();
        if i < 0 {
            // the reader is dropped; its next call opens the catalogue again
            runs[-i as usize - 1] = None;
            continue;
        }
        let i = i as usize - 1;
        let mut ev = match &mut runs[i] {
            None => {
                let (run, ev) = Run::open(&docs[i], parser);
                runs[i] = Some(run);
                ev
            }
            Some(run) if run.over => continue,
            Some(run) => run.step(),
        };
        ev["who"] = json!(i + 1);
        evs.push(ev);
    }
    evs
}

/// A user who advances one reader in the ways iterators offer, and keeps, copies, gives up and asks units.
/// Acts that make no sense (no such unit, no reader any more) are left out.
pub fn using(v: &Value) -> Vec<Value> {
    let doc = Doc::from_json(v);
    let parser = PoParser::new();
    let mut evs = vec![];
    let mut held: Vec<Unit> = vec![];
    let mut reader: Option<PoReader<Script>> = None;
    let open = json!({"a": "open"});
    let mut acts: Vec<&Value> = v["acts"].as_array().unwrap().iter().collect();
    if acts.first().map_or(true, |a| a["a"] != json!("open")) {
        acts.insert(0, &open);
    }
    for x in acts {
        let k = x["k"].as_i64().unwrap_or(0) as usize;
        let done = catch_unwind(AssertUnwindSafe(|| act(x["a"].as_str().unwrap(), k, &parser, &doc, &mut reader, &mut held)));
        match done {
            Ok(e) => evs.extend(e),
            Err(_) => {
                evs.push(json!({"ev": "panic"}));
                break;
            }
        }
    }
    evs
}

fn act<'p>(a: &str, k: usize, parser: &'p PoParser, doc: &Doc, reader: &mut Option<PoReader<'p, Script>>, held: &mut Vec<Unit>) -> Vec<Value> {
    let item = |i: Result<Unit, Error>, held: &mut Vec<Unit>| match i {
        Ok(u) => {
            let e = unit_event(&u, &doc.probes);
            held.push(u);
            Value::Object(e)
        }
        Err(e) => Value::Object(error_event(e)),
    };
    let one = |i: Option<Result<Unit, Error>>, held: &mut Vec<Unit>| match i {
        None => vec![json!({"ev": "end"})],
        Some(i) => vec![item(i, held)],
    };
    match a {
        "open" => match parser.parse(doc.script()) {
            Ok(r) => {
                *reader = Some(r);
                return vec![json!({"ev": "opened"})];
            }
            Err(e) => return vec![Value::Object(error_event(e))],
        },
        "ask" | "clone" | "release" => {
            if k == 0 || k > held.len() {
                return vec![];
            }
            match a {
                "clone" => {
                    let c = held[k - 1].clone();
                    held.push(c);
                }
                "release" => {
                    held.remove(k - 1);
                }
                _ => {
                    let first = unit_event(&held[k - 1], &doc.probes);
                    let mut other = doc.probes.clone();
                    other.reverse();
                    unit_event(&held[k - 1], &other);
                    if unit_event(&held[k - 1], &doc.probes) != first {
                        return vec![json!({"ev": "inconsistent"})];
                    }
                    return vec![Value::Object(first)];
                }
            }
            return vec![];
        }
        _ => (),
    }
    let r = match reader.as_mut() {
        None => return vec![],
        Some(r) => r,
    };
    match a {
        "next" => one(r.next(), held),
        "dyn" => {
            let d: &mut dyn CatalogueReader = r;
            one(d.next(), held)
        }
        "nth" => one(r.nth(k), held),
        "take" => {
            let got: Vec<_> = r.by_ref().take(k).collect();
            got.into_iter().map(|i| item(i, held)).collect()
        }
        "hint" => {
            let (lo, hi) = r.size_hint();
            vec![json!({"ev": "hint", "lo": lo.min(1 << 30), "hi": hi.map_or(-1, |h| h.min(1 << 30) as i64)})]
        }
        "rest" => {
            let got: Vec<_> = reader.take().unwrap().collect();
            got.into_iter().map(|i| item(i, held)).collect()
        }
        "fold" => reader.take().unwrap().fold(vec![], |mut l, i| {
            l.push(item(i, held));
            l
        }),
        "count" => vec![json!({"ev": "count", "n": reader.take().unwrap().count()})],
        "last" => one(reader.take().unwrap().last(), held),
        "drop" => {
            reader.take();
            vec![]
        }
        a => panic!("unknown act {}", a),
    }
}

/// A plural declaration: the opening, and the unit which shows what the declaration designates.
fn formula(v: &Value, parser: &PoParser) -> (Vec<Value>, u64) {
    let esc = |s: String| s.replace('\\', "\\\\").replace('"', "\\\"").replace('\t', "\\t");
    let decl = esc(text_of(&v["decl"]));
    let mut d = Doc::from_json(v);
    let mut t = format!("msgid \"\"\nmsgstr \"Plural-Forms: {}\\n\"\n\nmsgid \"s\"\nmsgid_plural \"p\"\n", decl);
    for i in 0..v["vals"].as_u64().unwrap_or(1) {
        t += &format!("msgstr[{}] \"t{}\"\n", i, i);
    }
    d.segs = t.split_inclusive('\n').map(|l| l.as_bytes().to_vec()).collect();
    let (mut evs, work) = run_doc_work(&d, parser);
    evs.truncate(2);
    if evs.len() == 2 && evs[0]["ev"] != json!("opened") {
        evs.truncate(1);
    }
    (evs, work)
}

/// A document made of a head, a text repeated (then a middle and a text repeated as often), and a tail,
/// read to its end and summed up.
/// In the repeated text the bytes 1 and 2 stand for its number, from 0 and from 1.
fn big(v: &Value, parser: &PoParser) -> (Value, u64) {
    let times = v["times"].as_u64().unwrap() as usize;
    let mut b: Vec<u8> = text_of(&v["head"]).into_bytes();
    let unit = text_of(&v["unit"]).into_bytes();
    for i in 0..times {
        for &c in &unit {
            match c {
                1 => b.extend(i.to_string().as_bytes()),
                2 => b.extend((i + 1).to_string().as_bytes()),
                c => b.push(c),
            }
        }
    }
    if !v["close"].is_null() {
        b.extend(text_of(&v["mid"]).as_bytes());
        b.extend(text_of(&v["close"]).as_bytes().repeat(times));
    }
    b.extend(text_of(&v["tail"]).as_bytes());
    let size = b.len();
    let mut d = Doc::from_json(v);
    d.segs = vec![b];
    d.sizes = Some(vec![v["chunk"].as_u64().unwrap_or(1 << 16) as usize]);
    let (mut run, first) = Run::open(&d, parser);
    let (mut units, mut chars) = (0u64, 0u64);
    let mut last = json!({});
    let mut stop = first.clone();
    let mut calls = 1;
    let length = |v: &Value| v.as_array().map_or(0, |a| a.len()) as u64;
    while !run.stopped && calls <= size + 16 {
        let e = run.step();
        calls += 1;
        if e["ev"] == json!("unit") {
            units += 1;
            chars += length(&e["id"]);
            for k in ["txt", "vals", "pid", "ctxt"] {
                chars += e[k].as_array().map_or(0, |a| a.iter().map(length).sum());
            }
            for k in ["notes", "comms", "locs", "flags", "vals"] {
                chars += length(&e[k]);
            }
            last = e.clone();
        }
        stop = e;
    }
    let bad = |e: &Value| e["ev"] == json!("panic") || e["ev"] == json!("inconsistent");
    let work = run.work;
    let ev = json!({
        "ev": if bad(&stop) || bad(&first) { "panic" } else if !run.stopped { "runaway" } else { "summary" },
        "opened": first["ev"] == json!("opened"),
        "props": first["props"].as_array().map_or(0, |a| a.iter().map(|p| length(&p[0]) + length(&p[1]) + 1).sum::<u64>()),
        "units": units,
        "chars": chars,
        "lastid": last["id"],
        "lastans": last["ans"].as_array().map_or(0, |a| a.iter().map(|t| length(&t[0])).sum::<u64>()),
        "stop": stop["ev"],
        "line": stop["line"],
        "cheap": work <= doc::allowance(size),
        "work": work.min(1 << 30),
        "size": size,
    });
    (ev, work)
}

/// An error made by hand; with "wrap" it is then converted and becomes the failure of another catalogue.
fn make_error(v: &Value) -> Vec<Value> {
    let number = |l: &Value| -> usize {
        match l {
            Value::Array(_) => text_of(l).parse().expect("line number"),
            x => x.as_u64().unwrap() as usize,
        }
    };
    let make = || {
        let line = number(&v["line"]);
        let t = |k: &str| text_of(&v[k]);
        match v["kind"].as_str().unwrap() {
            "io" => Error::Io(line, io::Error::new(kind_of(v["iokind"].as_str().unwrap()), Fault(t("msg")))),
            // "exp" holds the expected observations
            "parse" => Error::Parse(line, t("got"), t("exp_token")),
            "unexpected" => Error::Unexpected(line, t("msg")),
            "plural" => Error::PluralForms(t("msg")),
            k => panic!("unknown error {}", k),
        }
    };
    // line numbers may exceed what the specification language can hold
    let digits = |l: usize| Value::Array(l.to_string().bytes().map(|b| json!(b)).collect());
    let mut evs = vec![];
    let mut show = |e: &dyn Fn() -> Error, l: usize| {
        evs.push(match catch_unwind(AssertUnwindSafe(|| error_event(e()))) {
            Ok(mut m) => {
                m.insert("line".into(), digits(l));
                Value::Object(m)
            }
            Err(_) => json!({"ev": "panic"}),
        });
    };
    show(&make, number(&v["line"]));
    if let Some(w) = v["wrap"].as_array().and_then(|a| a.get(0)) {
        let l = number(w);
        show(&|| Error::Io(l, io::Error::from(make())), l);
    }
    evs
}

/// The equality of messages, as a matrix: those of the units of the documents, then simple ones.
fn equality(v: &Value, parser: &PoParser) -> Vec<Value> {
    let mut ms: Vec<Message> = vec![];
    for d in v["docs"].as_array().unwrap() {
        let doc = Doc::from_json(d);
        if let Ok(r) = parser.parse(doc.script()) {
            for u in r.flatten() {
                ms.push(u.message().clone());
                if v["prev"] == json!(true) {
                    ms.push(u.prev_message().clone());
                }
            }
        }
    }
    for s in v["simple"].as_array().unwrap_or(&vec![]) {
        ms.push(Message::Simple {
            id: text_of(&s["id"]),
            text: s["text"].as_array().unwrap().get(0).map(text_of),
        });
    }
    let rows = ms
        .iter()
        .map(|a| {
            let mut o = serde_json::Map::new();
            crate::doc::message_fields(a, &mut o);
            o.insert("ev".into(), json!("message"));
            o.insert("eq".into(), Value::Array(ms.iter().map(|b| json!(a == b && !(a != b))).collect()));
            Value::Object(o)
        })
        .collect();
    rows
}
