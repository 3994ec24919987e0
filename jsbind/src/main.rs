#![allow(unused_parens, dead_code, non_snake_case)]
//! Carries out recorded calls of the JavaScript bindings.
//! One record per line on stdin; the answer is a line with a kind and a
//! length, then that many bytes.
use serde_json::Value;
use std::io::{BufRead, Write};

include!(concat!(env!("OUT_DIR"), "/dispatch.rs"));

enum Ret {
    Obj(Obj),
    Bytes(Vec<u8>),
    Text(String),
    Nothing,
}

static NULL: Value = Value::Null;

fn at(a: &[Value], n: usize) -> &Value {
    a.get(n).unwrap_or(&NULL)
}

fn number(v: &Value) -> Result<i64, String> {
    match v {
        Value::Null => Ok(0),
        Value::Bool(b) => Ok(*b as i64),
        Value::Number(n) => Ok(n.as_i64().unwrap_or(n.as_f64().unwrap_or(0.0) as i64)),
        v => Err(format!("not a number: {v}")),
    }
}

fn truth(v: &Value) -> bool {
    match v {
        Value::Null => false,
        Value::Bool(b) => *b,
        Value::Number(n) => n.as_f64() != Some(0.0),
        Value::String(s) => !s.is_empty(),
        _ => true,
    }
}

fn text(v: &Value) -> Result<String, String> {
    v.as_str().map(|s| s.to_string()).ok_or_else(|| format!("not a string: {v}"))
}

fn numbers(v: &Value) -> Result<Vec<usize>, String> {
    v.as_array().ok_or("not an array")?.iter().map(|n| Ok(number(n)? as u32 as usize)).collect()
}

fn bytes(v: &Value) -> Result<Vec<u8>, String> {
    v.as_array().ok_or("not an array")?.iter().map(|n| Ok(number(n)? as u8)).collect()
}

fn run(v: &Value) -> Result<Ret, String> {
    let list = |v: &Value| v.as_array().cloned().unwrap_or_default();
    let mut now = make(v["$new"].as_str().ok_or_else(|| format!("not an object: {v}"))?, &list(&v["args"]))?;
    for c in v["calls"].as_array().into_iter().flatten() {
        let Ret::Obj(o) = now else { return Err("a call of nothing".into()) };
        let name = c[0].as_str().unwrap_or("");
        now = call(o, name, &list(&c[1])).map_err(|e| format!("{name}: {e}"))?;
    }
    Ok(now)
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("describe") {
        println!("{DESCRIPTION}");
        return;
    }
    // records nest
    let t = std::thread::Builder::new().stack_size(256 << 20).spawn(serve).unwrap();
    t.join().unwrap();
}

fn serve() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin().lock();
    let mut out = std::io::stdout().lock();
    for line in stdin.lines() {
        let Ok(line) = line else { return };
        let r = std::panic::catch_unwind(|| {
            let v: Value = serde_json::from_str(&line).map_err(|e| e.to_string())?;
            run(&v)
        });
        let (kind, b) = match r {
            Ok(Ok(Ret::Bytes(b))) => ("bytes", b),
            Ok(Ok(Ret::Text(t))) => ("text", t.into_bytes()),
            Ok(Ok(_)) => ("nothing", vec![]),
            Ok(Err(e)) => ("error", e.into_bytes()),
            Err(_) => ("panic", vec![]),
        };
        let _ = writeln!(out, "{kind} {}", b.len());
        let _ = out.write_all(&b);
        if out.flush().is_err() {
            return;
        }
    }
}
