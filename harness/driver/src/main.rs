//! Steps the real dir-signature library through requested operations and reports what is
//! observable: one JSON request per input line, one JSON response per output line.
//! Contains no oracle; every verdict is made by the TLA+ specification.
mod mem;
mod util;
mod scan;
mod index;

use serde_json::{json, Value};
use std::io::{BufRead, Write};

#[global_allocator]
static A: mem::Counting = mem::Counting;

/// performs one request
pub fn dispatch(op: &str, rq: &Value) -> Value {
    match op {
        "scan" => scan::scan(rq),
        "pool" => scan::pool(rq),
        "settings" => scan::settings(rq),
        "together" => scan::together(rq),
        "parse" => index::parse(rq),
        "merge" => index::merge(rq),
        "fmb" => index::file_merge(rq),
        "cmp" => index::cmp(rq),
        "hf" => index::hash_file(rq),
        "big" => index::big(rq),
        "hz" => index::hash_zeros(rq),
        "cf" => index::check_file(rq),
        "emit" => index::emit(rq),
        "gh" => index::get_hash(rq),
        "ht" => index::hash_type(rq),
        "b3" => util::b3(rq),
        "mktree" => scan::mktree_op(rq),
        "features" => json!({"threads": cfg!(feature = "threads"), "cpus": scan::cpus()}),
        _ => json!({"bad_request": op}),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    // own the real stdout; the code under test must not be able to mix output into the protocol
    for line in stdin.lock().lines() {
        let line = match line { Ok(l) => l, Err(_) => break };
        if line.is_empty() { continue; }
        let mut de = serde_json::Deserializer::from_str(&line);
        de.disable_recursion_limit();
        let rq = match <Value as serde::Deserialize>::deserialize(&mut de) {
            Ok(v) => v,
            Err(e) => json!({"op": e.to_string()}),
        };
        let op = rq["op"].as_str().unwrap_or("");
        let r = dispatch(op, &rq);
        let out = json!({"id": rq["id"], "r": r});
        let mut o = std::io::stdout().lock();
        writeln!(o, "{}", out).unwrap();
        o.flush().unwrap();
    }
}
