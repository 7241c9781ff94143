//! Documents: bytes, how they are delivered, and what is observed while reading them.
use crate::{
    script::{kind_of, Counters, Fault, Script, Step},
    work::allocated,
};
use poreader::{error::Error, note::Note, unit::Unit, CatalogueReader, Message, Origin, PoParser, PoReader, State};
use serde_json::{json, Map, Value};
use std::{
    io,
    panic::{catch_unwind, AssertUnwindSafe},
};

pub fn cps(s: &str) -> Value {
    Value::Array(s.chars().map(|c| Value::from(c as u32)).collect())
}

pub fn text_of(v: &Value) -> String {
    match v {
        Value::String(s) => s.clone(),
        Value::Array(a) => a
            .iter()
            .map(|x| char::from_u32(x.as_u64().unwrap() as u32).expect("code point"))
            .collect(),
        _ => String::new(),
    }
}

fn opt(s: Option<&str>) -> Value {
    match s {
        None => json!([]),
        Some(s) => json!([cps(s)]),
    }
}

/// A 64-bit number: [v] if -2^30 <= v < 2^30, else its 8 bytes, least significant first.
pub fn word(v: &Value) -> u64 {
    let a = v.as_array().unwrap();
    if a.len() == 1 {
        a[0].as_i64().unwrap() as u64
    } else {
        let mut b = [0u8; 8];
        for (i, x) in a.iter().enumerate() {
            b[i] = x.as_u64().unwrap() as u8;
        }
        u64::from_le_bytes(b)
    }
}

pub fn to_word(v: u64) -> Value {
    let i = v as i64;
    if (-(1 << 30)..(1 << 30)).contains(&i) {
        json!([i])
    } else {
        json!(v.to_le_bytes().to_vec())
    }
}

pub struct Doc {
    pub segs: Vec<Vec<u8>>,
    pub fault: Option<(io::ErrorKind, String)>,
    /// bytes available after the failure, which must never be seen
    pub poison: Vec<u8>,
    /// "line": one line per read; "sizes": the given sizes, over and over; 0 stands for an interruption
    pub sizes: Option<Vec<usize>>,
    pub probes: Vec<usize>,
    pub extra: usize,
    /// go on until the end is reported, whatever comes before it
    pub exhaust: bool,
}

fn bytes_of(v: &Value) -> Vec<u8> {
    match v {
        Value::String(s) => s.clone().into_bytes(),
        Value::Array(a) => a.iter().map(|x| x.as_u64().unwrap() as u8).collect(),
        _ => vec![],
    }
}

impl Doc {
    pub fn from_json(v: &Value) -> Doc {
        let segs: Vec<Vec<u8>> = v["segs"].as_array().map(|a| a.iter().map(bytes_of).collect()).unwrap_or_default();
        let fault = v["fault"]
            .as_array()
            .and_then(|a| a.get(0))
            .map(|f| (kind_of(f["kind"].as_str().unwrap()), text_of(&f["msg"])));
        Doc {
            segs,
            fault,
            poison: bytes_of(&v["poison"]),
            sizes: v["sizes"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as usize).collect()),
            probes: v["probes"].as_array().map(|a| a.iter().map(|x| word(x) as usize).collect()).unwrap_or_default(),
            extra: v["extra"].as_u64().unwrap_or(2) as usize,
            exhaust: v["exhaust"] == json!(true),
        }
    }

    pub fn script(&self) -> Script {
        let mut steps = vec![];
        match &self.sizes {
            None => {
                for s in &self.segs {
                    steps.push(Step::Data(s.clone(), true));
                }
            }
            Some(sizes) => {
                let all: Vec<u8> = self.segs.concat();
                let (mut p, mut i) = (0, 0);
                while p < all.len() {
                    let n = sizes[i % sizes.len()];
                    i += 1;
                    if n == 0 {
                        steps.push(Step::Interrupt);
                    } else {
                        let e = (p + n).min(all.len());
                        steps.push(Step::Data(all[p..e].to_vec(), false));
                        p = e;
                    }
                    if i > all.len() * 2 + sizes.len() * 2 + 16 {
                        steps.push(Step::Data(all[p..].to_vec(), false));
                        break;
                    }
                }
                if sizes.contains(&0) {
                    steps.push(Step::Interrupt);
                }
            }
        }
        if let Some((k, m)) = &self.fault {
            steps.push(Step::Fail(*k, m.clone()));
            if !self.poison.is_empty() {
                steps.push(Step::Data(self.poison.clone(), true));
            }
        }
        Script::new(steps)
    }
}

fn notes(v: &[Note]) -> Value {
    Value::Array(
        v.iter()
            .map(|n| json!([if *n.origin() == Origin::Developer { "dev" } else { "tra" }, cps(n.value())]))
            .collect(),
    )
}

fn comments(v: &[poreader::comment::Comment]) -> Value {
    Value::Array(v.iter().map(|c| json!([c.kind() as u32, cps(c.comment())])).collect())
}

/// The raw contents of a message, by its public representation.
pub fn message_fields(m: &Message, o: &mut Map<String, Value>) {
    o.insert("pl".into(), json!(m.is_plural()));
    o.insert("id".into(), cps(m.get_id()));
    o.insert("pid".into(), opt(m.get_plural_id()));
    let (txt, vals) = match m {
        Message::Simple { text, .. } => (opt(text.as_deref()), json!([])),
        Message::Plural(p) => (json!([]), Value::Array(p.values().iter().map(|s| cps(s)).collect())),
    };
    o.insert("txt".into(), txt);
    o.insert("vals".into(), vals);
    o.insert("simple".into(), json!(m.is_simple()));
    o.insert("blank".into(), json!(m.is_blank()));
    o.insert("text".into(), cps(m.get_text()));
    let forms = m.plural().and_then(|p| p.get_forms());
    match forms {
        None => {
            o.insert("fc".into(), json!([]));
            o.insert("fd".into(), json!([]));
            o.insert("fs".into(), json!([]));
        }
        Some(f) => {
            o.insert("fc".into(), json!([(f.get_count() as u64).to_le_bytes().to_vec()]));
            o.insert("fd".into(), json!([cps(f.get_definition())]));
            o.insert("fs".into(), json!([cps(f.get_formula())]));
        }
    }
    // the two representations of a plural message agree
    if let Message::Plural(p) = m {
        if p.singular() != m.get_id() || Some(p.plural()) != m.get_plural_id() || p.first() != m.get_text() || p.is_blank() != m.is_blank() {
            o.insert("pl".into(), json!("inconsistent"));
        }
    }
    if m.plural().is_some() != m.is_plural() {
        o.insert("pl".into(), json!("inconsistent"));
    }
}

pub fn unit_event(u: &Unit, probes: &[usize]) -> Map<String, Value> {
    let mut o = Map::new();
    o.insert("ev".into(), json!("unit"));
    o.insert("ctxt".into(), opt(u.context()));
    let m = u.message();
    message_fields(m, &mut o);
    let ans = catch_unwind(AssertUnwindSafe(|| {
        probes
            .iter()
            .map(|&n| {
                let a = m.get_plural_text(n);
                // the two ways of asking agree
                if let Some(p) = m.plural() {
                    if p.get(n) != a {
                        return json!("inconsistent");
                    }
                    if let (Some(f), Some(t)) = (p.get_forms(), a) {
                        match f.get_value(n) {
                            Some(i) if p.values().get(i).map(|s| s.as_str()) == Some(t) => (),
                            _ => return json!("inconsistent"),
                        }
                    }
                }
                opt(a)
            })
            .collect::<Vec<_>>()
    }));
    o.insert("ans".into(), ans.map(Value::Array).unwrap_or_else(|_| json!("panic")));
    let gv = catch_unwind(AssertUnwindSafe(|| {
        let forms = m.plural().and_then(|p| p.get_forms());
        probes
            .iter()
            .map(|&n| match forms.and_then(|f| f.get_value(n)) {
                None => json!([]),
                Some(i) => json!([to_word(i as u64)]),
            })
            .collect::<Vec<_>>()
    }));
    o.insert("gv".into(), gv.map(Value::Array).unwrap_or_else(|_| json!("panic")));
    // asked again, backwards, the answers are the same; what is asked first of the next unit was asked last of this one
    if let Value::Array(a) = &o["ans"] {
        let again = catch_unwind(AssertUnwindSafe(|| {
            probes.iter().zip(a).rev().all(|(&n, t)| *t == opt(m.get_plural_text(n)) || t.is_string())
        }));
        if !again.unwrap_or(false) {
            o.insert("ans".into(), json!(["inconsistent"]));
        }
    }
    if o["ans"] == json!("panic") || o["gv"] == json!("panic") {
        o.insert("ev".into(), json!("panic"));
    }
    let odd = json!("inconsistent");
    if o["pl"] == odd || o["ans"].as_array().map_or(false, |a| a.contains(&odd)) {
        o.insert("ev".into(), odd);
    }
    o.insert("pc".into(), opt(u.prev_context()));
    let p = u.prev_message();
    o.insert("ppl".into(), json!(p.is_plural()));
    o.insert("pi".into(), cps(p.get_id()));
    o.insert("pp".into(), opt(p.get_plural_id()));
    o.insert("pt".into(), cps(p.get_text()));
    let mut prev = Map::new();
    message_fields(p, &mut prev);
    if prev["pl"] == json!("inconsistent") {
        o.insert("ev".into(), json!("inconsistent"));
    }
    o.insert("psimple".into(), prev["simple"].take());
    o.insert("pblank".into(), prev["blank"].take());
    o.insert("pvals".into(), prev["vals"].take());
    o.insert("pforms".into(), json!([prev["fc"], prev["fd"], prev["fs"]]));
    let pans = catch_unwind(AssertUnwindSafe(|| probes.iter().map(|&n| opt(p.get_plural_text(n))).collect::<Vec<_>>()));
    if pans.is_err() {
        o.insert("ev".into(), json!("panic"));
    }
    o.insert("pans".into(), json!(pans.unwrap_or_default()));
    let mut flags: Vec<&String> = u.flags().iter().collect();
    flags.sort();
    o.insert("flags".into(), Value::Array(flags.into_iter().map(|f| cps(f)).collect()));
    o.insert("notes".into(), notes(u.notes()));
    o.insert("locs".into(), Value::Array(u.locations().iter().map(|f| cps(f)).collect()));
    o.insert("comms".into(), comments(u.comments()));
    o.insert(
        "state".into(),
        json!(match u.state() {
            State::Empty => "empty",
            State::NeedsWork => "needswork",
            State::Final => "final",
        }),
    );
    o.insert("tr".into(), json!(u.is_translated()));
    o.insert("obs".into(), json!(u.is_obsolete()));
    o
}

pub fn error_event(e: Error) -> Map<String, Value> {
    use std::error::Error as _;
    let mut o = Map::new();
    match &e {
        Error::Io(line, err) => {
            o.insert("ev".into(), json!("io"));
            o.insert("line".into(), json!(line));
            o.insert("iokind".into(), json!(format!("{:?}", err.kind())));
            o.insert("iomsg".into(), cps(&err.to_string()));
            let orig = err.get_ref().map_or(false, |r| r.is::<Fault>());
            o.insert("orig".into(), json!(orig));
        }
        Error::Parse(line, got, exp) => {
            o.insert("ev".into(), json!("parse"));
            o.insert("line".into(), json!(line));
            o.insert("got".into(), cps(got));
            o.insert("exp".into(), cps(exp));
        }
        Error::Unexpected(line, msg) => {
            o.insert("ev".into(), json!("unexpected"));
            o.insert("line".into(), json!(line));
            o.insert("msg".into(), cps(msg));
        }
        Error::PluralForms(msg) => {
            o.insert("ev".into(), json!("plural"));
            o.insert("msg".into(), cps(msg));
        }
    }
    o.insert("disp".into(), cps(&e.to_string()));
    o.insert("src".into(), opt(e.source().map(|s| s.to_string()).as_deref()));
    o.insert("dbg".into(), cps(&format!("{:?}", e)));
    // the original cause is found by following the sources
    fn cause(mut s: Option<&(dyn std::error::Error + 'static)>) -> bool {
        while let Some(e) = s {
            let here = e.downcast_ref::<io::Error>().and_then(|e| e.get_ref());
            if here.map_or(false, |r| r.is::<Fault>()) {
                return true;
            }
            s = e.source();
        }
        false
    }
    o.insert("srcorig".into(), json!(cause(e.source())));
    if let Error::Io(_, err) = &e {
        o.insert("iodbg".into(), cps(&format!("{:?}", err)));
    }
    let conv: io::Error = e.into();
    o.insert("conv".into(), cps(&conv.to_string()));
    o.insert("csrc".into(), opt(conv.source().map(|s| s.to_string()).as_deref()));
    o.insert("csrcorig".into(), json!(cause(conv.source())));
    o
}

pub struct Run<'p> {
    reader: Option<PoReader<'p, Script>>,
    counters: Counters,
    by_line: bool,
    meta: Option<Value>,
    probes: Vec<usize>,
    pub over: bool,
    pub stopped: bool,
    /// bytes asked of the allocator by the reader
    pub work: u64,
}

fn metadata<R: io::Read>(r: &PoReader<R>) -> Map<String, Value> {
    let mut o = Map::new();
    o.insert("lang".into(), cps(&r.target_language().to_string()));
    o.insert("hnotes".into(), notes(r.header_notes()));
    o.insert("hcomms".into(), comments(r.header_comments()));
    let mut props: Vec<(&String, &String)> = r.header_properties().iter().collect();
    props.sort();
    o.insert("props".into(), Value::Array(props.into_iter().map(|(k, v)| json!([cps(k), cps(v)])).collect()));
    o
}

impl<'p> Run<'p> {
    /// Opens the catalogue; returns the run and its first event.
    pub fn open(doc: &Doc, parser: &'p PoParser) -> (Run<'p>, Value) {
        let script = doc.script();
        let counters = script.counters.clone();
        let mut run = Run {
            reader: None,
            counters,
            by_line: doc.sizes.is_none(),
            meta: None,
            probes: doc.probes.clone(),
            over: false,
            stopped: false,
            work: 0,
        };
        let work = &mut run.work;
        let res = catch_unwind(AssertUnwindSafe(|| {
            let w0 = allocated();
            let r = parser.parse(script);
            *work += allocated() - w0;
            match r {
                Ok(r) => {
                    let m = metadata(&r);
                    (Some(r), Ok(m))
                }
                Err(e) => (None, Err(error_event(e))),
            }
        }));
        let mut ev = match res {
            Err(_) => {
                run.over = true;
                run.stopped = true;
                panic_event()
            }
            Ok((r, m)) => {
                run.reader = r;
                match m {
                    Ok(m) => {
                        run.meta = Some(Value::Object(m.clone()));
                        let mut ev = m;
                        ev.insert("ev".into(), json!("opened"));
                        ev
                    }
                    Err(ev) => {
                        run.over = true;
                        run.stopped = true;
                        ev
                    }
                }
            }
        };
        run.stamp(&mut ev);
        (run, Value::Object(ev))
    }

    fn stamp(&self, ev: &mut Map<String, Value>) {
        if self.by_line {
            ev.insert("pulled".into(), json!(self.counters.lines.get()));
        } else {
            ev.insert("pulled".into(), json!(0));
        }
    }

    /// One call of next.
    pub fn step(&mut self) -> Value {
        let probes = self.probes.clone();
        let reader = self.reader.as_mut().unwrap();
        let work = &mut self.work;
        let res = catch_unwind(AssertUnwindSafe(|| {
            let w0 = allocated();
            let e = reader.next();
            *work += allocated() - w0;
            let ev = match e {
                None => {
                    let mut o = Map::new();
                    o.insert("ev".into(), json!("end"));
                    o
                }
                Some(Ok(u)) => unit_event(&u, &probes),
                Some(Err(e)) => error_event(e),
            };
            (ev, Value::Object(metadata(reader)))
        }));
        let mut ev = match res {
            Err(_) => {
                self.over = true;
                panic_event()
            }
            Ok((mut ev, m)) => {
                ev.insert("ms".into(), json!(Some(&m) == self.meta.as_ref()));
                ev
            }
        };
        if ev["ev"] != json!("unit") {
            self.stopped = true;
        }
        self.stamp(&mut ev);
        Value::Object(ev)
    }
}

fn panic_event() -> Map<String, Value> {
    let mut o = Map::new();
    o.insert("ev".into(), json!("panic"));
    o
}

/// The whole run of a document: until the end or an error is returned, then `extra` more calls.
pub fn run_doc(doc: &Doc, parser: &PoParser) -> Vec<Value> {
    run_doc_work(doc, parser).0
}

/// ... and the bytes the reader asked of the allocator.
pub fn run_doc_work(doc: &Doc, parser: &PoParser) -> (Vec<Value>, u64) {
    let (mut run, ev) = Run::open(doc, parser);
    let mut evs = vec![ev];
    let mut extra = doc.extra;
    let limit = doc.segs.len() + 16;
    while !run.over {
        if doc.exhaust {
            if evs.last().map_or(false, |e| e["ev"] == json!("end")) {
                break;
            }
        } else if run.stopped {
            if extra == 0 {
                break;
            }
            extra -= 1;
        }
        if evs.len() > limit {
            evs.push(json!({"ev": "runaway"}));
            break;
        }
        evs.push(run.step());
    }
    let work = run.work;
    (evs, work)
}

/// What the reader may ask of the allocator, in all, for a document of that many bytes: several times
/// what it was seen to ask for, but far from any number written in a document.
pub fn allowance(size: usize) -> u64 {
    4_000_000 + 600 * size as u64
}
