//! Runs cases against the real code and reports what it observed.
//! usage: toonh CASES.jsonl   (observations on stdout, one JSON line per case)
use asupersync::stream::Stream;
use serde_json::{Map, Value, json};
use std::alloc::{GlobalAlloc, Layout, System};
use std::future::Future;
use std::io::{BufRead, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::pin::Pin;
use std::sync::atomic::{AtomicI64, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use toon::options::{
    DecodeOptions, DecodeStreamOptions, EncodeOptions, EncodeReplacer, ExpandPathsMode,
    KeyFoldingMode, PathSegment,
};
use toon::{JsonStreamEvent as Ev, JsonValue, StringOrNumberOrBoolOrNull as Prim};

/// Counts what is allocated, so that a case can say how much it took at most.
struct Counting;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
fn took(n: usize) {
    PEAK.fetch_max(LIVE.fetch_add(n, Ordering::Relaxed) + n, Ordering::Relaxed);
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        took(l.size());
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        took(l.size());
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Ordering::Relaxed);
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        took(n);
        LIVE.fetch_sub(l.size(), Ordering::Relaxed);
        unsafe { System.realloc(p, l, n) }
    }
}
#[global_allocator]
static ALLOCATOR: Counting = Counting;

const POLL_LIMIT: usize = 10_000_000;

fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    let mut cx = Context::from_waker(Waker::noop());
    for _ in 0..POLL_LIMIT {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
    }
    panic!("future never became ready");
}

/// Polls a stream to its end; then polls on to see that it stays ended.
fn drain<S: Stream>(s: S, mut stop: impl FnMut(&S::Item) -> bool) -> (Vec<S::Item>, usize) {
    let mut s = Box::pin(s);
    let mut cx = Context::from_waker(Waker::noop());
    let mut out = Vec::new();
    let mut pend = 0usize;
    loop {
        match Pin::as_mut(&mut s).poll_next(&mut cx) {
            Poll::Ready(Some(x)) => {
                let end = stop(&x);
                out.push(x);
                if end {
                    break;
                }
            }
            Poll::Ready(None) => break,
            Poll::Pending => {
                pend += 1;
                assert!(pend < POLL_LIMIT, "stream never became ready");
            }
        }
    }
    let mut extra = 0;
    for _ in 0..4 {
        if let Poll::Ready(Some(_)) = Pin::as_mut(&mut s).poll_next(&mut cx) {
            extra += 1;
        }
    }
    (out, extra)
}

// ---------------------------------------------------------------- encoding of values
fn prim_out(p: &Prim) -> Value {
    match p {
        Prim::Null => json!([0]),
        Prim::Bool(b) => json!([1, *b]),
        Prim::Number(n) => json!([2, format!("{n}")]),
        Prim::String(s) => json!([3, s]),
    }
}
fn val_out(v: &JsonValue) -> Value {
    match v {
        JsonValue::Primitive(p) => prim_out(p),
        JsonValue::Array(a) => json!([4, a.iter().map(val_out).collect::<Vec<_>>()]),
        JsonValue::Object(o) => {
            json!([5, o.iter().map(|(k, v)| json!([k, val_out(v)])).collect::<Vec<_>>()])
        }
    }
}
fn val_in(v: &Value) -> JsonValue {
    match v[0].as_i64().unwrap() {
        0 => JsonValue::Primitive(Prim::Null),
        1 => JsonValue::Primitive(Prim::Bool(v[1].as_bool().unwrap())),
        2 => JsonValue::Primitive(Prim::Number(v[1].as_str().unwrap().parse().unwrap())),
        3 => JsonValue::Primitive(Prim::String(v[1].as_str().unwrap().to_string())),
        // a chain of objects with one field each
        6 => v[1].as_array().unwrap().iter().rev().fold(val_in(&v[2]), |x, k| {
            JsonValue::Object(vec![(k.as_str().unwrap().to_string(), x)])
        }),
        4 => JsonValue::Array(v[1].as_array().unwrap().iter().map(val_in).collect()),
        _ => JsonValue::Object(
            v[1].as_array()
                .unwrap()
                .iter()
                .map(|e| (e[0].as_str().unwrap().to_string(), val_in(&e[1])))
                .collect(),
        ),
    }
}
fn ev_out(e: &Ev) -> Value {
    match e {
        Ev::StartObject => json!([1]),
        Ev::EndObject => json!([2]),
        Ev::StartArray { length } => json!([3, length]),
        Ev::EndArray => json!([4]),
        Ev::Key { key, was_quoted } => json!([5, i32::from(*was_quoted), key]),
        Ev::Primitive { value } => json!([6, prim_out(value)]),
    }
}
fn evs_out(es: &[Ev]) -> Value {
    Value::Array(es.iter().map(ev_out).collect())
}
fn ev_in(v: &Value) -> Ev {
    match v[0].as_i64().unwrap() {
        1 => Ev::StartObject,
        2 => Ev::EndObject,
        3 => Ev::StartArray { length: v[1].as_u64().unwrap() as usize },
        4 => Ev::EndArray,
        5 => Ev::Key {
            key: v[2].as_str().unwrap().to_string(),
            was_quoted: v[1].as_i64().unwrap() == 1,
        },
        _ => match val_in(&v[1]) {
            JsonValue::Primitive(value) => Ev::Primitive { value },
            _ => unreachable!(),
        },
    }
}

// ---------------------------------------------------------------- observation groups
#[derive(Default)]
struct Groups(Vec<(Vec<String>, Value)>);
impl Groups {
    fn add(&mut self, api: &str, f: impl FnOnce() -> Value) {
        let o = match catch_unwind(AssertUnwindSafe(f)) {
            Ok(v) => v,
            Err(p) => {
                let m = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| (*s).to_string()))
                    .unwrap_or_default();
                json!({"st": "panic", "msg": m})
            }
        };
        match self.0.iter_mut().find(|g| g.1 == o) {
            Some(g) => g.0.push(api.to_string()),
            None => self.0.push((vec![api.to_string()], o)),
        }
    }
    fn out(self) -> Value {
        Value::Array(self.0.into_iter().map(|(n, o)| json!({"n": n, "o": o})).collect())
    }
}
fn res<T, E: std::fmt::Display>(r: Result<T, E>, key: &str, f: impl FnOnce(&T) -> Value) -> Value {
    match r {
        Ok(v) => json!({"st": "ok", key: f(&v)}),
        Err(e) => json!({"st": "err", "msg": e.to_string()}),
    }
}
/// The variants that panic on a decoding error: a panic that carries the error
/// is their documented way to report it.
fn panicking<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| {
        p.downcast_ref::<String>().cloned().unwrap_or_else(|| "panic without text".into())
    })
}

fn us(c: &Value, k: &str) -> Option<usize> {
    c.get(k).and_then(Value::as_u64).map(|n| n as usize)
}
fn wants(c: &Value, k: &str) -> bool {
    c["want"].as_array().is_some_and(|a| a.iter().any(|x| x == k))
}

fn op_dec(c: &Value, out: &mut Map<String, Value>) {
    let doc = c["doc"].as_str().unwrap();
    let lines: Vec<String> = doc.split('\n').map(str::to_string).collect();
    let indent = us(c, "indent");
    let strict = c["strict"].as_bool();
    let so = || (indent.is_some() || strict.is_some()).then_some(DecodeStreamOptions { indent, strict });
    let expand = c["expand"].as_bool().map(|b| if b { ExpandPathsMode::Safe } else { ExpandPathsMode::Off });
    let dopt = || {
        (indent.is_some() || strict.is_some() || expand.is_some())
            .then_some(DecodeOptions { indent, strict, expand_paths: expand })
    };
    if wants(c, "ev") {
        let mut g = Groups::default();
        g.add("try_decode_stream_sync", || {
            res(toon::try_decode_stream_sync(lines.clone(), so()), "evs", |e| evs_out(e))
        });
        if wants(c, "all") {
            g.add("try_decode_stream", || {
                res(block_on(toon::try_decode_stream(lines.clone(), so())), "evs", |e| evs_out(e))
            });
            g.add("try_decode_stream_async", || {
                res(
                    block_on(toon::decode::try_decode_stream_async(lines.clone(), so())),
                    "evs",
                    |e| evs_out(e),
                )
            });
            g.add("decode_stream_sync", || {
                res(panicking(|| toon::decode_stream_sync(lines.clone(), so())), "evs", |e| evs_out(e))
            });
            g.add("decode_stream", || {
                res(panicking(|| block_on(toon::decode_stream(lines.clone(), so()))), "evs", |e| evs_out(e))
            });
            g.add("decode_stream_async", || {
                res(
                    panicking(|| block_on(toon::decode::decode_stream_async(lines.clone(), so()))),
                    "evs",
                    |e| evs_out(e),
                )
            });
        }
        out.insert("ev".into(), g.out());
    }
    if wants(c, "astream") {
        let mut g = Groups::default();
        g.add("AsyncDecodeStream", || {
            let s = toon::decode::AsyncDecodeStream::new(lines.clone().into_iter(), so());
            let (items, extra) = drain(s, Result::is_err);
            let mut evs = Vec::new();
            let mut st = "ok";
            let mut msg = String::new();
            for i in items {
                match i {
                    Ok(e) => evs.push(e),
                    Err(e) => {
                        st = "err";
                        msg = e.to_string();
                    }
                }
            }
            json!({"st": st, "evs": evs_out(&evs), "msg": msg, "extra": extra})
        });
        out.insert("astream".into(), g.out());
    }
    if wants(c, "val") {
        let mut g = Groups::default();
        g.add("try_decode", || res(toon::try_decode(doc, dopt()), "v", val_out));
        if wants(c, "all") {
            g.add("try_decode_from_lines", || {
                res(toon::try_decode_from_lines(lines.clone(), dopt()), "v", val_out)
            });
            g.add("decode", || res(panicking(|| toon::decode(doc, dopt())), "v", val_out));
            g.add("decode_from_lines", || {
                res(panicking(|| toon::decode_from_lines(lines.clone(), dopt())), "v", val_out)
            });
            g.add("try_decode_async", || {
                res(block_on(toon::decode::try_decode_async(doc, dopt())), "v", val_out)
            });
        }
        out.insert("val".into(), g.out());
    }
    if wants(c, "json") {
        let mut g = Groups::default();
        g.add("decode_to_json_chunks", || {
            res(toon::cli::conversion::decode_to_json_chunks(doc, dopt()), "text", |ch| {
                Value::String(ch.concat())
            })
        });
        out.insert("json".into(), g.out());
    }
    if wants(c, "tj") {
        let mut g = Groups::default();
        g.add("toon_to_json", || res(toon::toon_to_json(doc), "text", |t| Value::String(t.clone())));
        out.insert("tj".into(), g.out());
    }
}

fn enc_opts(c: &Value, replacer: Option<EncodeReplacer>) -> EncodeOptions {
    EncodeOptions {
        indent: us(c, "indent"),
        delimiter: c["delim"].as_str().and_then(|s| s.chars().next()),
        key_folding: c["fold"]
            .as_bool()
            .map(|b| if b { KeyFoldingMode::Safe } else { KeyFoldingMode::Off }),
        flatten_depth: us(c, "flat"),
        replacer,
    }
}
fn lines_out(l: &[String]) -> Value {
    json!({"st": "ok", "lines": l})
}

fn op_enc(c: &Value, out: &mut Map<String, Value>) {
    let v = val_in(&c["v"]);
    let plain = ["indent", "delim", "fold", "flat"].iter().all(|k| c.get(*k).is_none_or(Value::is_null));
    let o = || (!plain).then(|| enc_opts(c, None));
    if wants(c, "lines") {
        let mut g = Groups::default();
        g.add("encode_lines", || lines_out(&toon::encode_lines(v.clone(), o())));
        if wants(c, "all") {
            use toon::encode::async_encode as ae;
            g.add("AsyncEncodeStream", || {
                let s = ae::AsyncEncodeStream::new(v.clone(), o());
                let n = s.len();
                let (l, extra) = drain(s, |_| false);
                assert!(extra == 0 && n == l.len(), "stream continued or miscounted");
                lines_out(&l)
            });
            g.add("encode_lines_async", || {
                lines_out(&block_on(ae::encode_lines_async(v.clone(), o())))
            });
            g.add("try_encode_lines_async", || {
                lines_out(&block_on(ae::try_encode_lines_async(v.clone(), o())).unwrap())
            });
        }
        out.insert("lines".into(), g.out());
    }
    if wants(c, "text") {
        let mut g = Groups::default();
        let t = |s: String| json!({"st": "ok", "text": s});
        g.add("encode", || t(toon::encode(v.clone(), o())));
        use toon::encode::async_encode as ae;
        g.add("encode_async", || t(block_on(ae::encode_async(v.clone(), o()))));
        g.add("try_encode_async", || t(block_on(ae::try_encode_async(v.clone(), o())).unwrap()));
        out.insert("text".into(), g.out());
    }
    if wants(c, "evs") {
        let mut g = Groups::default();
        let e = |s: Vec<Ev>| json!({"st": "ok", "evs": evs_out(&s)});
        g.add("encode_stream_events", || e(toon::encode_stream_events(v.clone(), o())));
        if wants(c, "all") {
            use toon::encode::async_encode as ae;
            g.add("AsyncEncodeEventStream", || {
                let (l, extra) = drain(ae::AsyncEncodeEventStream::new(v.clone(), o()), |_| false);
                assert!(extra == 0, "stream continued after its end");
                e(l)
            });
            g.add("encode_events_async", || e(block_on(ae::encode_events_async(v.clone(), o()))));
            g.add("try_encode_events_async", || {
                e(block_on(ae::try_encode_events_async(v.clone(), o())).unwrap())
            });
        }
        out.insert("evs".into(), g.out());
    }
    // What the text reads back as; "rt" lists [strict, expand] pairs.
    if let Some(list) = c["rt"].as_array() {
        let mut r = Vec::new();
        for p in list {
            let mut g = Groups::default();
            g.add("decode(encode)", || {
                let text = toon::encode(v.clone(), o());
                let x = if p[1].as_bool().unwrap() { ExpandPathsMode::Safe } else { ExpandPathsMode::Off };
                let d = DecodeOptions {
                    indent: us(c, "indent"),
                    strict: p[0].as_bool(),
                    expand_paths: Some(x),
                };
                let mut o = res(toon::try_decode(&text, Some(d)), "v", val_out);
                o["text"] = Value::String(text);
                o
            });
            r.push(g.out());
        }
        out.insert("rt".into(), Value::Array(r));
    }
}

/// JSON text in.
fn op_jenc(c: &Value, out: &mut Map<String, Value>) {
    let j = c["json"].as_str().unwrap();
    let mut g = Groups::default();
    g.add("encode_to_toon_lines", || {
        res(toon::cli::conversion::encode_to_toon_lines(j, Some(enc_opts(c, None))), "lines", |l| json!(l))
    });
    out.insert("lines".into(), g.out());
    if wants(c, "default") {
        let mut g = Groups::default();
        g.add("json_to_toon", || res(toon::json_to_toon(j), "text", |t| json!(t)));
        out.insert("text".into(), g.out());
    }
}

fn op_build(c: &Value, out: &mut Map<String, Value>) {
    use toon::decode::event_builder::{build_node_from_events, node_to_json};
    let evs: Vec<Ev> = c["evs"].as_array().unwrap().iter().map(ev_in).collect();
    let mut g = Groups::default();
    g.add("build_node_from_events", || {
        res(build_node_from_events(evs.clone()).map(node_to_json), "v", val_out)
    });
    out.insert("val".into(), g.out());
    let mut g = Groups::default();
    let indent = us(c, "indent").unwrap_or(2);
    g.add("json_stream_from_events", || {
        res(toon::cli::json_stream::json_stream_from_events(evs.clone(), indent), "text", |ch| {
            json!(ch.concat())
        })
    });
    out.insert("json".into(), g.out());
}

/// A serde_json value in the notation of the cases.
fn serde_out(v: &Value) -> Value {
    match v {
        Value::Null => json!([0]),
        Value::Bool(b) => json!([1, *b]),
        Value::Number(n) => json!([2, n.as_f64().map_or_else(|| n.to_string(), |f| format!("{f}"))]),
        Value::String(s) => json!([3, s]),
        Value::Array(a) => json!([4, a.iter().map(serde_out).collect::<Vec<_>>()]),
        Value::Object(m) => json!([5, m.iter().map(|(k, v)| json!([k, serde_out(v)])).collect::<Vec<_>>()]),
    }
}
/// The same value put together from Rust values piece by piece.
fn val_from(v: &Value) -> JsonValue {
    match v[0].as_i64().unwrap() {
        0 => JsonValue::from(Prim::Null),
        1 => JsonValue::from(v[1].as_bool().unwrap()),
        2 => {
            let t = v[1].as_str().unwrap();
            match t.parse::<i64>() {
                Ok(n) if t.len() % 2 == 0 => JsonValue::from(n),
                _ => JsonValue::from(t.parse::<f64>().unwrap()),
            }
        }
        3 => {
            let t = v[1].as_str().unwrap();
            if t.len() % 2 == 0 { JsonValue::from(t) } else { JsonValue::from(t.to_string()) }
        }
        4 => JsonValue::from(v[1].as_array().unwrap().iter().map(val_from).collect::<Vec<_>>()),
        _ => JsonValue::from(
            v[1].as_array()
                .unwrap()
                .iter()
                .map(|e| (e[0].as_str().unwrap().to_string(), val_from(&e[1])))
                .collect::<Vec<(String, JsonValue)>>(),
        ),
    }
}
/// A value on its way to serde_json and back, and from Rust values.
fn op_conv(c: &Value, out: &mut Map<String, Value>) {
    let v = val_in(&c["v"]);
    let mut g = Groups::default();
    g.add("serde_json::Value::from", || json!({"st": "ok", "v": serde_out(&Value::from(v.clone()))}));
    out.insert("to".into(), g.out());
    let mut g = Groups::default();
    g.add("JsonValue::from(serde_json::Value::from)", || {
        json!({"st": "ok", "v": val_out(&JsonValue::from(Value::from(v.clone())))})
    });
    out.insert("back".into(), g.out());
    let mut g = Groups::default();
    g.add("JsonValue::from pieces", || json!({"st": "ok", "v": val_out(&val_from(&c["v"]))}));
    out.insert("of".into(), g.out());
    if wants(c, "enc") {
        let mut g = Groups::default();
        let o = || Some(enc_opts(c, None));
        g.add("encode a JsonValue", || json!({"st": "ok", "text": toon::encode(v.clone(), o())}));
        out.insert("text".into(), g.out());
        let mut g = Groups::default();
        g.add("encode a serde_json::Value", || json!({"st": "ok", "text": toon::encode(Value::from(v.clone()), o())}));
        out.insert("stext".into(), g.out());
    }
}

fn op_str(c: &Value, out: &mut Map<String, Value>) {
    let v = val_in(&c["v"]);
    let indent = us(c, "indent").unwrap_or(2);
    let mut g = Groups::default();
    g.add("json_stringify_lines", || {
        json!({"st": "ok", "text": toon::cli::json_stringify::json_stringify_lines(&v, indent).concat()})
    });
    g.add("json_stream_from_events", || {
        res(
            toon::cli::json_stream::json_stream_from_events(
                toon::encode_stream_events(v.clone(), None),
                indent,
            ),
            "text",
            |ch| json!(ch.concat()),
        )
    });
    out.insert("json".into(), g.out());
}

// ---------------------------------------------------------------- replacers
type Calls = Arc<Mutex<Vec<Value>>>;
fn path_out(p: &[PathSegment]) -> Value {
    Value::Array(
        p.iter()
            .map(|s| match s {
                PathSegment::Key(k) => json!([0, k]),
                PathSegment::Index(i) => json!([1, i.to_string()]),
            })
            .collect(),
    )
}
fn make_replacer(rules: &Value, calls: Calls) -> EncodeReplacer {
    struct Rule(i64, Value, i64, Value);
    impl Rule {
        fn reach(&self) -> usize {
            if self.0 == 2 || self.0 == 4 {
                5
            } else if self.2 == 1 || self.2 == 2 {
                2
            } else {
                1000
            }
        }
    }
    let rules: Vec<Rule> = rules
        .as_array()
        .unwrap()
        .iter()
        .map(|r| Rule(r[0].as_i64().unwrap(), r[1].clone(), r[2].as_i64().unwrap(), r[3].clone()))
        .collect();
    Arc::new(move |key, value, path| {
        let p = path_out(path);
        calls.lock().unwrap().push(json!([key, p, val_out(value)]));
        for r in &rules {
            // an answer is descended into: rules must not apply without end
            let hit = path.len() <= r.reach() && match r.0 {
                0 => true,
                1 => r.1 == *key,
                2 => r.1 == p,
                3 => r.1[0].as_u64().unwrap() as usize == path.len(),
                4 => r.1 == val_out(value),
                5 => matches!(value, JsonValue::Array(_)),
                _ => matches!(value, JsonValue::Object(_)),
            };
            if hit {
                return match r.2 {
                    0 => None,
                    1 => Some(val_in(&r.3)),
                    2 => Some(JsonValue::Object(vec![(
                        r.3.as_str().unwrap().to_string(),
                        value.clone(),
                    )])),
                    _ => Some(value.clone()),
                };
            }
        }
        Some(value.clone())
    })
}
fn op_rep(c: &Value, out: &mut Map<String, Value>) {
    use toon::encode::async_encode as ae;
    let v = val_in(&c["v"]);
    let mut gl = Groups::default();
    let mut ge = Groups::default();
    macro_rules! run {
        ($g:ident, $api:expr, $f:expr) => {
            $g.add($api, || {
                let calls: Calls = Arc::default();
                let o = Some(enc_opts(c, Some(make_replacer(&c["rules"], calls.clone()))));
                let f: fn(JsonValue, Option<EncodeOptions>) -> Value = $f;
                let mut r = f(v.clone(), o);
                r["calls"] = Value::Array(std::mem::take(&mut *calls.lock().unwrap()));
                r
            })
        };
    }
    fn e(s: Vec<Ev>) -> Value {
        json!({"st": "ok", "evs": evs_out(&s)})
    }
    run!(gl, "encode_lines", |v, o| lines_out(&toon::encode_lines(v, o)));
    run!(gl, "encode", |v, o| {
        let t = toon::encode::encode(v, o);
        // no lines make no text
        let n = if t.is_empty() { 0 } else { usize::MAX };
        lines_out(&t.split('\n').take(n).map(str::to_string).collect::<Vec<_>>())
    });
    run!(gl, "AsyncEncodeStream", |v, o| {
        let (l, _) = drain(ae::AsyncEncodeStream::new(v, o), |_| false);
        lines_out(&l)
    });
    run!(gl, "encode_lines_async", |v, o| lines_out(&block_on(ae::encode_lines_async(v, o))));
    run!(ge, "encode_stream_events", |v, o| e(toon::encode_stream_events(v, o)));
    run!(ge, "AsyncEncodeEventStream", |v, o| {
        let (l, _) = drain(ae::AsyncEncodeEventStream::new(v, o), |_| false);
        e(l)
    });
    run!(ge, "encode_events_async", |v, o| e(block_on(ae::encode_events_async(v, o))));
    out.insert("lines".into(), gl.out());
    out.insert("evs".into(), ge.out());
    // The replaced value written without a replacer.
    let mut gp = Groups::default();
    gp.add("encode_lines of the replaced value", || {
        use toon::decode::event_builder::{build_node_from_events, node_to_json};
        let o = Some(enc_opts(c, Some(make_replacer(&c["rules"], Calls::default()))));
        let v = node_to_json(build_node_from_events(toon::encode_stream_events(v.clone(), o)).unwrap());
        lines_out(&toon::encode_lines(v, Some(enc_opts(c, None))))
    });
    out.insert("plain".into(), gp.out());
}

// ---------------------------------------------------------------- main loop
static CURRENT: AtomicI64 = AtomicI64::new(-1);
static STARTED: AtomicU64 = AtomicU64::new(0);

fn now_ms() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64
}

fn main() {
    let path = std::env::args().nth(1).expect("cases file");
    let limit: u64 = std::env::args().nth(2).map_or(30_000, |s| s.parse().unwrap());
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::spawn(move || {
        loop {
            std::thread::sleep(std::time::Duration::from_millis(100));
            let id = CURRENT.load(Ordering::SeqCst);
            if id >= 0 && now_ms().saturating_sub(STARTED.load(Ordering::SeqCst)) > limit {
                println!("{}", json!({"id": id, "hang": true}));
                let _ = std::io::stdout().flush();
                std::process::exit(3);
            }
        }
    });
    // A thread of the default size, as any user's worker thread would be.
    std::thread::Builder::new().stack_size(2 << 20).spawn(move || run(&path)).unwrap().join().unwrap();
}

fn run(path: &str) {
    let file = std::io::BufReader::new(std::fs::File::open(path).expect("open cases"));
    for line in file.lines() {
        let line = line.expect("read");
        if line.is_empty() {
            continue;
        }
        let c: Value = serde_json::from_str(&line).expect("case");
        let id = c["id"].as_i64().unwrap();
        STARTED.store(now_ms(), Ordering::SeqCst);
        CURRENT.store(id, Ordering::SeqCst);
        let mut out = Map::new();
        out.insert("id".into(), json!(id));
        let before = LIVE.load(Ordering::SeqCst);
        PEAK.store(before, Ordering::SeqCst);
        match c["op"].as_str().unwrap() {
            "dec" => op_dec(&c, &mut out),
            "both" => {
                for (k, strict) in [("s", true), ("l", false)] {
                    let mut c = c.clone();
                    c["strict"] = json!(strict);
                    let mut m = Map::new();
                    op_dec(&c, &mut m);
                    out.insert(k.into(), Value::Object(m));
                }
            }
            "enc" => op_enc(&c, &mut out),
            "jenc" => op_jenc(&c, &mut out),
            "build" => op_build(&c, &mut out),
            "conv" => op_conv(&c, &mut out),
            "str" => op_str(&c, &mut out),
            "rep" => op_rep(&c, &mut out),
            other => panic!("unknown op {other}"),
        }
        out.insert("peak".into(), json!(PEAK.load(Ordering::SeqCst) - before));
        CURRENT.store(-1, Ordering::SeqCst);
        println!("{}", Value::Object(out));
    }
}
