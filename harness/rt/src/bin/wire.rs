#![recursion_limit = "1024"]
//! Executes write and read jobs against generated code.
//! usage: wire jobs.ndjson out.ndjson progress
use rtlib::{Cx, Create, Fv, Guard, Pre, PreV, Vw};
use serde_json::{json, Value};
use std::io::{BufRead, Write};

include!(concat!(env!("OUT_DIR"), "/glue.rs"));

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let inp = std::io::BufReader::new(std::fs::File::open(&a[1]).unwrap());
    let mut out = std::io::BufWriter::new(std::fs::File::create(&a[2]).unwrap());
    let th = std::thread::Builder::new().stack_size(256 << 20);
    let prog = a[3].clone();
    th.spawn(move || {
        let mut g = Guard::new(64);
        let mut builder = planus::Builder::new();
        let progress = std::fs::File::create(&prog).unwrap();
        use std::os::unix::fs::FileExt;
        for (n, l) in inp.lines().enumerate() {
            let j: Value = serde_json::from_str(&l.unwrap()).unwrap();
            progress.write_at(format!("{n:10}").as_bytes(), 0).unwrap();
            let s = j["s"].as_u64().unwrap();
            let t = j["j"].as_u64().unwrap();
            let r = match j["op"].as_str().unwrap() {
                "write" => {
                    let id = j["id"].as_array().map(|_| {
                        let b = rtlib::bytes(&j["id"]);
                        [b[0], b[1], b[2], b[3]]
                    });
                    let how = j["how"].as_str().unwrap();
                    let reuse = j["reuse"].as_bool().unwrap_or(false);
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        if reuse {
                            builder.clear();
                            write(s, t, &j["v"], how, &mut builder, id)
                        } else {
                            write(s, t, &j["v"], how, &mut planus::Builder::new(), id)
                        }
                    }));
                    match r {
                        Ok(b) => json!({"b": b, "panic": ""}),
                        Err(e) => {
                            builder = planus::Builder::new();
                            json!({"b": [], "panic": rtlib::msg(e)})
                        }
                    }
                }
                "read" => {
                    let b = rtlib::bytes(&j["b"]);
                    let d = j["D"].as_u64().unwrap() as u32;
                    let k = j["K"].as_u64().unwrap() as usize;
                    let it = j["mode"] == "iter";
                    let buf = if j["at"] == "start" { g.at_start(&b) } else { g.at_end(&b) };
                    let r = read(s, t, buf, it, d, k);
                    json!({"view": r[0], "owned": r[1], "n": r[2], "D": r[3], "K": r[4]})
                }
                "default" => {
                    let r = std::panic::catch_unwind(|| owned_default(s, t));
                    json!({"owned": r.unwrap_or(json!(["panic", "default"]))})
                }
                _ => panic!("op"),
            };
            serde_json::to_writer(&mut out, &r).unwrap();
            out.write_all(b"\n").unwrap();
        }
        out.flush().unwrap();
    })
    .unwrap()
    .join()
    .unwrap();
}
