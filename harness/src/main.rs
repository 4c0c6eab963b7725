//! Replay driver: reads one JSON case per stdin line, runs it against the real tomllib, and writes one JSON
//! observation record per line (same order).  It contains no expectations: every verdict is the specification's.
use serde_json::{json, Value as J};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use tomllib::types::*;
use tomllib::TOMLParser;

fn dt_json(d: &DateTime) -> J {
    let mut o = json!({"y": d.date.year, "mo": d.date.month, "d": d.date.day,
                       "h": "", "mi": "", "s": "", "f": "", "o": "", "oh": "", "om": ""});
    if let Some(ref t) = d.time {
        o["h"] = json!(t.hour);
        o["mi"] = json!(t.minute);
        o["s"] = json!(t.second);
        if let Some(ref f) = t.fraction {
            o["f"] = json!(f);
        }
        match t.offset {
            Some(TimeOffset::Zulu) => o["o"] = json!("Z"),
            Some(TimeOffset::Time(ref a)) => {
                o["o"] = json!(if a.pos_neg == PosNeg::Pos { "+" } else { "-" });
                o["oh"] = json!(a.hour);
                o["om"] = json!(a.minute);
            }
            None => {}
        }
    }
    o
}

// Every JSON type carries its value under a name of its own: scalars "v", dates "d", arrays "a", inline tables "m"
fn val_json(v: &Value) -> J {
    match v {
        Value::Integer(s) => json!({"t":"int","v":s}),
        Value::Float(s) => json!({"t":"flt","v":s}),
        Value::Boolean(b) => json!({"t":"bool","v": if *b {"true"} else {"false"}}),
        Value::DateTime(d) => json!({"t":"dt","d":dt_json(d)}),
        Value::String(s, k) => json!({"t": match k { StrType::Basic=>"bs", StrType::MLBasic=>"mbs",
            StrType::Literal=>"ls", StrType::MLLiteral=>"mls"}, "v": s}),
        Value::Array(a) => json!({"t":"arr","a": a.iter().map(val_json).collect::<Vec<_>>()}),
        Value::InlineTable(t) => json!({"t":"it","m": t.iter().map(|(k,v)| json!([k, val_json(v)])).collect::<Vec<_>>()}),
    }
}

fn opt_json(v: Option<Value>) -> J {
    match v { Some(v) => val_json(&v), None => json!({"t":"none"}) }
}

fn st<'a>(v: &J, k: &str) -> String {
    v[k].as_str().unwrap_or("").to_string()
}

fn json_dt(v: &J) -> DateTime<'static> {
    let date = Date { year: st(v, "y").into(), month: st(v, "mo").into(), day: st(v, "d").into() };
    let time = if st(v, "h") != "" {
        Some(Time {
            hour: st(v, "h").into(),
            minute: st(v, "mi").into(),
            second: st(v, "s").into(),
            fraction: match st(v, "f").as_str() { "" => None, f => Some(f.to_string().into()) },
            offset: match st(v, "o").as_str() {
                "" => None,
                "Z" => Some(TimeOffset::Zulu),
                pm => Some(TimeOffset::Time(TimeOffsetAmount {
                    pos_neg: if pm == "+" { PosNeg::Pos } else { PosNeg::Neg },
                    hour: st(v, "oh").into(),
                    minute: st(v, "om").into(),
                })),
            },
        })
    } else {
        None
    };
    DateTime { date, time }
}

fn json_val(j: &J) -> Value<'static> {
    let s = || j["v"].as_str().unwrap().to_string().into();
    match j["t"].as_str().unwrap() {
        "int" => Value::Integer(s()),
        "flt" => Value::Float(s()),
        "bool" => Value::Boolean(j["v"] == "true"),
        "dt" => Value::DateTime(json_dt(&j["d"])),
        "bs" => Value::String(s(), StrType::Basic),
        "mbs" => Value::String(s(), StrType::MLBasic),
        "ls" => Value::String(s(), StrType::Literal),
        "mls" => Value::String(s(), StrType::MLLiteral),
        "arr" => Value::Array(Rc::new(j["a"].as_array().unwrap().iter().map(json_val).collect())),
        "it" => Value::InlineTable(Rc::new(
            j["m"].as_array().unwrap().iter()
                .map(|p| (p[0].as_str().unwrap().to_string().into(), json_val(&p[1]))).collect(),
        )),
        t => panic!("harness: bad value type {}", t),
    }
}

fn err_json(e: &ParseError) -> J {
    match e {
        ParseError::MixedArray(k, l, _) => json!({"l":l,"b":{"e":"mixed","k":k}}),
        ParseError::DuplicateKey(k, l, _, v) => json!({"l":l,"b":{"e":"dup","k":k,"val":val_json(v)}}),
        ParseError::InvalidTable(k, l, _, m) => {
            let m = m.borrow();
            let mut kv: Vec<(&String, J)> = m.iter().map(|(k, v)| (k, val_json(v))).collect();
            kv.sort_by(|a, b| a.0.cmp(b.0));
            json!({"l":l,"b":{"e":"table","k":k,"m": kv.iter().map(|(k,v)| (k, json!([k,v]))).collect::<std::collections::BTreeMap<_,_>>().into_values().collect::<Vec<_>>()}})
        }
        ParseError::InvalidDateTime(k, l, _, s) => json!({"l":l,"b":{"e":"dt","k":k,"s":s}}),
        other => json!({"l":0,"b":{"e":"other","k":format!("{:?}", other)}}),
    }
}

fn errs(e: &Rc<std::cell::RefCell<Vec<ParseError>>>) -> J {
    J::Array(e.borrow().iter().map(err_json).collect())
}

fn res_json(r: &ParseResult) -> J {
    match r {
        ParseResult::Full => json!({"r":"full","left":"","l":0,"e":[]}),
        ParseResult::FullError(e) => json!({"r":"fullerr","left":"","l":0,"e":errs(e)}),
        ParseResult::Partial(l, n, _) => json!({"r":"partial","left":l,"l":n,"e":[]}),
        ParseResult::PartialError(l, n, _, e) => json!({"r":"partialerr","left":l,"l":n,"e":errs(e)}),
        ParseResult::Failure(n, _) => json!({"r":"failure","left":"","l":n,"e":[]}),
    }
}

fn broken(r: &str, m: &str) -> J {
    json!({"r":r,"left":"","l":0,"e":[],"m":m})
}

fn ch_json(c: Option<&Children>) -> J {
    match c {
        None => json!({"c":"none"}),
        Some(Children::Count(n)) => json!({"c":"count","n":n.get()}),
        Some(Children::Keys(k)) => json!({"c":"keys","ks":*k.borrow()}),
    }
}

// All there is to be reached from the root, each path once, by the paths' syntax alone
fn walk(p: &TOMLParser) -> J {
    let mut out = vec![];
    let mut seen = std::collections::HashSet::new();
    let mut queue = std::collections::VecDeque::new();
    queue.push_back(String::new());
    while let Some(k) = queue.pop_front() {
        if !seen.insert(k.clone()) { continue; }
        if out.len() > 2000 { break; }
        let c = ch_json(p.get_children(k.as_str()));
        if c["c"] == "keys" {
            for s in c["ks"].as_array().unwrap() {
                let s = s.as_str().unwrap();
                queue.push_back(if k == "" { s.to_string() } else { format!("{}.{}", k, s) });
            }
        } else if c["c"] == "count" {
            for i in 0..c["n"].as_u64().unwrap().min(2000) { queue.push_back(format!("{}[{}]", k, i)); }
        }
        out.push(json!({"p":k, "g":opt_json(p.get_value(k.as_str())), "c":c}));
    }
    J::Array(out)
}

fn rv(r: Result<Value, TOMLError>) -> J {
    match r {
        Ok(v) => json!({"ok": true, "v": val_json(&v), "valid": v.validate(), "s": format!("{}", v)}),
        Err(_) => json!({"ok": false, "v": {"t":"none"}, "valid": false, "s": ""}),
    }
}

fn ctor(op: &J) -> J {
    let name = op["f"].as_str().unwrap();
    let a: Vec<String> = op["a"].as_array().unwrap().iter()
        .map(|x| x.as_str().map(|s| s.to_string()).unwrap_or_else(|| x.to_string())).collect();
    let u = |i: usize| a[i].parse::<usize>().unwrap();
    let c = |i: usize| a[i].chars().next().unwrap();
    let s = |i: usize| a[i].clone();
    match name {
        "int" => rv(Ok(Value::int(a[0].parse().unwrap()))),
        "int_from_str" => rv(Value::int_from_str(s(0))),
        "float" => rv(Ok(Value::float(a[0].parse().unwrap()))),
        "float_from_str" => rv(Value::float_from_str(s(0))),
        "bool" => rv(Ok(Value::bool(a[0] == "true"))),
        "bool_from_str" => rv(Value::bool_from_str(s(0))),
        "basic_string" => rv(Value::basic_string(s(0))),
        "ml_basic_string" => rv(Value::ml_basic_string(s(0))),
        "literal_string" => rv(Value::literal_string(s(0))),
        "ml_literal_string" => rv(Value::ml_literal_string(s(0))),
        "datetime_parse" => rv(Value::datetime_parse(a[0].as_str())),
        "date_from_int" => rv(Value::date_from_int(u(0), u(1), u(2))),
        "date_from_str" => rv(Value::date_from_str(s(0), s(1), s(2))),
        "datetime_from_int" => rv(Value::datetime_from_int(u(0), u(1), u(2), u(3), u(4), u(5))),
        "datetime_from_str" => rv(Value::datetime_from_str(s(0), s(1), s(2), s(3), s(4), s(5))),
        "datetime_frac_from_int" => rv(Value::datetime_frac_from_int(u(0), u(1), u(2), u(3), u(4), u(5), u(6))),
        "datetime_frac_from_str" => rv(Value::datetime_frac_from_str(s(0), s(1), s(2), s(3), s(4), s(5), s(6))),
        "datetime_offset_from_int" => rv(Value::datetime_offset_from_int(u(0), u(1), u(2), u(3), u(4), u(5), c(6), u(7), u(8))),
        "datetime_offset_from_str" => rv(Value::datetime_offset_from_str(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8))),
        "datetime_zulu_from_int" => rv(Value::datetime_zulu_from_int(u(0), u(1), u(2), u(3), u(4), u(5))),
        "datetime_zulu_from_str" => rv(Value::datetime_zulu_from_str(s(0), s(1), s(2), s(3), s(4), s(5))),
        "datetime_full_zulu_from_int" => rv(Value::datetime_full_zulu_from_int(u(0), u(1), u(2), u(3), u(4), u(5), u(6) as u64)),
        "datetime_full_zulu_from_str" => rv(Value::datetime_full_zulu_from_str(s(0), s(1), s(2), s(3), s(4), s(5), s(6))),
        "datetime_full_from_int" => rv(Value::datetime_full_from_int(u(0), u(1), u(2), u(3), u(4), u(5), u(6) as u64, c(7), u(8), u(9))),
        "datetime_full_from_str" => rv(Value::datetime_full_from_str(s(0), s(1), s(2), s(3), s(4), s(5), s(6), s(7), s(8), s(9))),
        "combine_keys" => json!(Children::combine_keys(s(0), s(1))),
        "combine_keys_index" => json!(Children::combine_keys_index(s(0), u(1))),
        n => panic!("harness: unknown constructor {}", n),
    }
}

fn cow(v: &J, k: &str) -> std::borrow::Cow<'static, str> {
    st(v, k).into()
}

fn strs(v: &J) -> Vec<String> {
    v.as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default()
}

fn offset_of(o: &[String]) -> Option<TimeOffset<'static>> {
    match o {
        [] => None,
        [z] if z == "Z" => Some(TimeOffset::Zulu),
        [pm, h, m] => Some(TimeOffset::Time(TimeOffsetAmount {
            pos_neg: match pm.as_str() { "+" => PosNeg::Pos, "-" => PosNeg::Neg, x => panic!("harness: sign {}", x) },
            hour: h.clone().into(), minute: m.clone().into() })),
        x => panic!("harness: offset {:?}", x),
    }
}

// A part of a date-time: as it is with these fields, and as from_str makes it
fn part(op: &J) -> J {
    let a = &op["a"];
    let o = strs(&a["o"]);
    let date = || Date { year: cow(a, "y"), month: cow(a, "mo"), day: cow(a, "d") };
    let f = strs(&a["f"]);
    let time = || Time { hour: cow(a, "h"), minute: cow(a, "mi"), second: cow(a, "s"),
                         fraction: f.get(0).map(|x| x.clone().into()), offset: offset_of(&o) };
    fn made<T: std::fmt::Display + PartialEq>(s: String, valid: bool, built: Option<&T>, r: Result<T, TOMLError>) -> J {
        match r {
            Ok(t) => { let same = built.map_or(true, |b| *b == t && t == *b);
                       json!({"s":s,"valid":valid,"ok":true,"made": if same { format!("{}", t) } else { format!("other: {}", t) }}) }
            Err(_) => json!({"s":s,"valid":valid,"ok":false,"made":""}),
        }
    }
    match op["f"].as_str().unwrap() {
        "date" => { let d = date(); made(format!("{}", d), d.validate(), Some(&d), Date::from_str(st(a, "y"), st(a, "mo"), st(a, "d"))) }
        "time" => { let t = time(); made(format!("{}", t), t.validate(), Some(&t),
                        Time::from_str(st(a, "h"), st(a, "mi"), st(a, "s"), f.get(0).cloned(), offset_of(&o))) }
        "offset" => {
            let t = offset_of(&o).unwrap();
            let (s, v) = (format!("{}", t), t.validate());
            match t {
                TimeOffset::Zulu => json!({"s":s,"valid":v,"ok":v,"made": if v { s.clone() } else { String::new() }}),
                TimeOffset::Time(am) => if am.validate() != v || format!("{}", am) != s { json!({"s":"amount and offset differ","valid":v,"ok":v,"made":s}) }
                    else { made(s, v, Some(&am), TimeOffsetAmount::from_str(o[0].clone(), o[1].clone(), o[2].clone())) },
            }
        }
        "amount" => made(String::new(), false, None, TimeOffsetAmount::from_str(o[0].clone(), o[1].clone(), o[2].clone())),
        "datetime" => {
            let d = DateTime::new(date(), if a["t"] == true { Some(time()) } else { None });
            let (s, v) = (format!("{}", d), d.validate());
            json!({"s":s,"valid":v,"ok":v,"made": if v { s.clone() } else { String::new() }})
        }
        n => panic!("harness: unknown part {}", n),
    }
}

// One parser, with the result of what it parsed last
struct Slot {
    p: TOMLParser<'static>,
    last: Option<ParseResult<'static>>,
    here: bool, // whether it has parsed what's in this thread's buffer
}

// One buffer per thread for the text of one parser at a time: as when a program reads one document after the other into the same
// memory, with a new parser for each
const ROOM: usize = 1 << 16;
thread_local!(static BUFFER: *mut u8 = Box::leak(vec![0u8; ROOM].into_boxed_slice()).as_mut_ptr());
fn in_buffer(d: &str) -> &'static str {
    BUFFER.with(|b| unsafe {
        std::ptr::copy_nonoverlapping(d.as_ptr(), *b, d.len());
        std::str::from_utf8_unchecked(std::slice::from_raw_parts(*b, d.len()))
    })
}

impl Slot {
    fn new() -> Slot { Slot { p: TOMLParser::new(), last: None, here: false } }
    fn parse(&mut self, d: &'static str) -> Result<J, String> {
        let old = std::mem::replace(&mut self.p, TOMLParser::new());
        guard(|| old.parse(d)).map(|(np, r)| { self.p = np; let j = res_json(&r); self.last = Some(r); j })
    }
}

// Something the library handed out
enum Held {
    Val(Option<Value<'static>>),
    Ch(Option<Children>),
    Res(ParseResult<'static>),
}

impl Held {
    fn json(&self) -> J {
        match self {
            Held::Val(v) => opt_json(v.clone()),
            Held::Ch(c) => ch_json(c.as_ref()),
            Held::Res(r) => res_json(r),
        }
    }
}

fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "?".into());
        // (what's wrong with a case is no observation)
        if m.starts_with("harness: ") { eprintln!("{}", m); std::process::exit(101); }
        m
    })
}

/// {"doc": text, "ops": [...]}; docs and ops are arbitrary.
fn run(case: &J) -> J {
    // documents must outlive the parser: those not in the buffer are leaked (bounded by the batch size)
    let leak = |s: &str| -> &'static str { Box::leak(s.to_string().into_boxed_str()) };
    let mut taken = false; // the buffer
    let mut obs = vec![];
    let mut res = broken("none", "");
    let mut slot: Option<Slot> = None;
    let mut other = Slot::new();
    let mut held: Vec<Held> = vec![];
    let ok = |v: J| json!({"p":"", "v":v});
    let bad = |m: String| json!({"p": if m.is_empty() { "panic".to_string() } else { m }, "v": ""});
    if let Some(doc) = case["doc"].as_str() {
        let mut s = Slot::new();
        s.here = doc.len() <= ROOM;
        taken = s.here;
        match s.parse(if s.here { in_buffer(doc) } else { leak(doc) }) {
            Ok(r) => { res = r; slot = Some(s); }
            Err(m) => return json!({"res":broken("panic", &m),"obs":[]}),
        }
    }
    for op in case["ops"].as_array().unwrap_or(&vec![]) {
        let name = op["op"].as_str().unwrap();
        let pure = match name {
            "ctor" => Some(guard(|| ctor(op))),
            "part" => Some(guard(|| part(op))),
            "show" => Some(guard(|| { let v = json_val(&op["val"]); json!({"s":format!("{}", v),"valid":v.validate()}) })),
            "eq" => Some(guard(|| { let (v, w) = (json_val(&op["val"]), json_val(&op["val2"]));
                json!({"eq": v == w, "rev": w == v, "copy": v.clone() == v && w == w.clone()}) })),
            _ => None,
        };
        if let Some(r) = pure {
            obs.push(match r { Ok(j) => ok(j), Err(m) => bad(m) });
            continue;
        }
        let key = op["key"].as_str().unwrap_or("");
        let mut s = match slot.take() { Some(s) => s, None => break };
        let r = match name {
            "get" => guard(|| opt_json(s.p.get_value(key))),
            "ch" => guard(|| ch_json(s.p.get_children(key))),
            "kids" => guard(|| { let c = s.p.get_children(key); let mut j = json!({"c": ch_json(c)["c"], "ks": []});
                if let Some(c) = c { j["ks"] = json!(c.combine_child_keys(key)); } j }),
            "same" => guard(|| { let k2 = op["key2"].as_str().unwrap();
                json!({"v": s.p.get_value(key) == s.p.get_value(k2), "c": s.p.get_children(key) == s.p.get_children(k2)}) }),
            "walk" => guard(|| walk(&s.p)),
            "set" => guard(|| json!(s.p.set_value(key, json_val(&op["val"])))),
            // a value from somewhere else in the document, or one that was kept
            "copy" | "put" => guard(|| {
                let v = if name == "copy" { s.p.get_value(op["from"].as_str().unwrap()) }
                        else { match held[op["n"].as_u64().unwrap() as usize - 1] { Held::Val(ref v) => v.clone(), _ => panic!("harness: no value") } };
                json!({"r": match v { None => "none", Some(v) => if s.p.set_value(key, v) { "yes" } else { "no" } }})
            }),
            "disp" => guard(|| json!(format!("{}", s.p))),
            "parse" => {
                let doc = op["doc"].as_str().unwrap();
                if !taken && doc.len() <= ROOM { taken = true; s.here = true; s.parse(in_buffer(doc)) } else { s.parse(leak(doc)) }
            }
            "reparse" => match guard(|| format!("{}", s.p)) { Ok(d) => s.parse(leak(&d)), Err(m) => Err(m) },
            "showparse" => match guard(|| format!("k = {}", json_val(&op["val"]))) { Ok(d) => s.parse(leak(&d)), Err(m) => Err(m) },
            "new" => guard(|| {
                if s.here && held.is_empty() { taken = false; }
                s = Slot::new();
                json!("")
            }),
            "switch" => { std::mem::swap(&mut s, &mut other); Ok(json!("")) }
            "keep" => guard(|| {
                let x = match op["k"].as_str().unwrap() {
                    "get" => Held::Val(s.p.get_value(key)),
                    "ch" => Held::Ch(s.p.get_children(key).cloned()),
                    "res" => Held::Res(s.last.clone().expect("harness: no result to keep")),
                    k => panic!("harness: unknown thing {}", k),
                };
                let j = x.json();
                held.push(x);
                j
            }),
            "recall" => guard(|| held[op["n"].as_u64().unwrap() as usize - 1].json()),
            n => panic!("harness: unknown op {}", n),
        };
        match r {
            Ok(j) => { obs.push(ok(j)); slot = Some(s); }
            Err(m) => { obs.push(bad(m)); std::mem::forget(s); break; }
        }
    }
    json!({"res": res, "obs": obs})
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let limit: u64 = std::env::var("HARNESS_CASE_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(30);
    let nthreads = std::env::var("HARNESS_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize);
    let lines: Vec<String> = std::io::stdin().lock().lines().map(|l| l.unwrap()).filter(|l| !l.is_empty()).collect();
    let lines = Arc::new(lines);
    let out: Arc<Vec<Mutex<Option<String>>>> = Arc::new((0..lines.len()).map(|_| Mutex::new(None)).collect());
    let next = Arc::new(AtomicUsize::new(0));
    let busy: Arc<Vec<Mutex<Option<(usize, Instant)>>>> = Arc::new((0..nthreads).map(|_| Mutex::new(None)).collect());
    let done = Arc::new(AtomicUsize::new(0));
    let mut hs = vec![];
    for t in 0..nthreads {
        let (lines, out, next, busy, done) = (lines.clone(), out.clone(), next.clone(), busy.clone(), done.clone());
        hs.push(std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
            loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= lines.len() { break; }
                *busy[t].lock().unwrap() = Some((i, Instant::now()));
                let case: J = serde_json::from_str(&lines[i]).unwrap_or_else(|e| { eprintln!("harness: bad json: {}", e); std::process::exit(101) });
                let r = run(&case);
                *out[i].lock().unwrap() = Some(r.to_string());
                *busy[t].lock().unwrap() = None;
            }
            done.fetch_add(1, Ordering::SeqCst);
        }).unwrap());
    }
    let mut hung = vec![];
    while done.load(Ordering::SeqCst) + hung.len() < nthreads {
        std::thread::sleep(Duration::from_millis(5));
        for t in 0..nthreads {
            if hung.contains(&t) { continue; }
            let b = *busy[t].lock().unwrap();
            if let Some((i, at)) = b {
                if at.elapsed() > Duration::from_secs(limit) {
                    *out[i].lock().unwrap() = Some(json!({"res":broken("hang",""),"obs":[]}).to_string());
                    hung.push(t);
                }
            }
        }
    }
    let so = std::io::stdout();
    let mut so = std::io::BufWriter::new(so.lock());
    for o in out.iter() {
        let g = o.lock().unwrap();
        writeln!(so, "{}", g.as_deref().unwrap_or("{\"res\":{\"r\":\"notrun\",\"left\":\"\",\"l\":0,\"e\":[],\"m\":\"\"},\"obs\":[]}")).unwrap();
    }
    so.flush().unwrap();
    std::process::exit(0);
}
