//! Calls the WebAssembly bindings and reports what they returned.
//! usage: wasmh CASES.jsonl   (one JSON line per case on stdout)
use serde_json::{Value, json};
use std::io::{BufRead, Write};
use std::panic::{AssertUnwindSafe, catch_unwind};
use wasm_bindgen::{Data, JsError, JsValue};

fn js(v: &Value) -> JsValue {
    JsValue(match v[0].as_i64().unwrap() {
        0 => Data::Undefined,
        1 => Data::Null,
        2 => Data::Number(v[1].as_f64().unwrap()),
        3 => Data::Text(v[1].as_str().unwrap().to_string()),
        4 => Data::Bool(v[1].as_i64().unwrap() == 1),
        5 => Data::Object(
            v[1].as_array().unwrap().iter().map(|e| (e[0].as_str().unwrap().to_string(), js(&e[1]))).collect(),
        ),
        6 => Data::Array(vec![]),
        7 => Data::Number(v[1].as_f64().unwrap() / 10.0),
        8 => Data::Number(v[1].as_str().unwrap().parse().unwrap()),
        _ => Data::Number(f64::NAN),
    })
}

fn call(c: &Value) -> Result<String, JsError> {
    let t = c["text"].as_str().unwrap();
    match c["fn"].as_i64().unwrap() {
        1 => toon::wasm::encode(t),
        2 => toon::wasm::encode_with_options(t, js(&c["js"])),
        3 => toon::wasm::decode(t),
        4 => toon::wasm::decode_with_options(t, js(&c["js"])),
        _ => toon::wasm::decode_pretty(t),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let f = std::env::args().nth(1).unwrap();
    let all: Vec<String> =
        std::io::BufReader::new(std::fs::File::open(f).unwrap()).lines().map(Result::unwrap).collect();
    // an answer that never comes is told by the time
    let limit: u64 = std::env::args().nth(2).and_then(|s| s.parse().ok()).unwrap_or(20000);
    let at = std::sync::Arc::new(std::sync::atomic::AtomicU64::new(0));
    let seen = at.clone();
    std::thread::spawn(move || {
        let mut last = (u64::MAX, 0u64);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(200));
            let n = seen.load(std::sync::atomic::Ordering::Relaxed);
            last = if n == last.0 { (n, last.1 + 200) } else { (n, 0) };
            if last.1 > limit {
                std::process::exit(99);
            }
        }
    });
    let work = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        let mut out = std::io::stdout().lock();
        for line in all {
            at.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            let c: Value = serde_json::from_str(&line).unwrap();
            let r = match catch_unwind(AssertUnwindSafe(|| call(&c))) {
                Ok(Ok(text)) => json!({"id": c["id"], "out": [{"n": [], "o": {"st": "ok", "text": text}}]}),
                Ok(Err(e)) => json!({"id": c["id"], "out": [{"n": [], "o": {"st": "err", "msg": e.0}}]}),
                Err(_) => json!({"id": c["id"], "out": [{"n": ["bindings"], "o": {"st": "panic"}}]}),
            };
            writeln!(out, "{r}").unwrap();
            out.flush().unwrap();
        }
    });
    if work.unwrap().join().is_err() {
        std::process::exit(98);
    }
    std::process::exit(0);
}
