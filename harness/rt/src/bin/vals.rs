//! Compares, clones and serializes values of generated types.
//! usage: vals jobs.ndjson out.ndjson progress
use rtlib::{Create, Cx, Fv, Pre, PreV, Vw};
use serde_json::{json, Value};
use std::io::{BufRead, Write};

include!(concat!(env!("OUT_DIR"), "/glue.rs"));

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let inp = std::io::BufReader::new(std::fs::File::open(&a[1]).unwrap());
    let mut out = std::io::BufWriter::new(std::fs::File::create(&a[2]).unwrap());
    let progress = std::fs::File::create(&a[3]).unwrap();
    use std::os::unix::fs::FileExt;
    for (n, l) in inp.lines().enumerate() {
        let j: Value = serde_json::from_str(&l.unwrap()).unwrap();
        progress.write_at(format!("{n:10}").as_bytes(), 0).unwrap();
        let r = std::panic::catch_unwind(|| values(j["s"].as_u64().unwrap(), j["j"].as_u64().unwrap(), &j));
        let r = r.unwrap_or_else(|e| json!({"panic": rtlib::msg(e)}));
        serde_json::to_writer(&mut out, &r).unwrap();
        out.write_all(b"\n").unwrap();
    }
    out.flush().unwrap();
}
