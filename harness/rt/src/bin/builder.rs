//! Replays sequences of builder operations and records the buffer after each.
//! usage: builder jobs.ndjson out.ndjson
#[allow(warnings)]
mod g {
    include!(concat!(env!("OUT_DIR"), "/bld.rs"));
}
use g::bld::{Node, S, U};
use planus::{Builder, Offset, UnionOffset, VectorWrite, WriteAs, WriteAsOffset, WriteAsPrimitive};
use rtlib::bytes;
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::mem::MaybeUninit;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone)]
enum Obj {
    None,
    Str(Offset<str>),
    Bytes(Offset<[u8]>),
    IBytes(Offset<[i8]>),
    V64(Offset<[u64]>),
    VStr(Offset<[Offset<str>]>),
    Tab(Offset<Node>),
    Un(UnionOffset<U>),
}
/// distance of the object's start from the end of the buffer
fn back<T: ?Sized>(o: Offset<T>) -> u32
where
    Offset<T>: WriteAsPrimitive<Offset<T>>,
{
    let mut b = [MaybeUninit::<u8>::uninit(); 4];
    o.write(planus::Cursor::new(&mut b), 1 << 30);
    let d = u32::from_le_bytes(b.map(|x| unsafe { x.assume_init() }));
    (1 << 30) - d
}
fn s(v: &Value) -> String {
    String::from_utf8(bytes(v)).unwrap()
}
fn w64(v: &Value) -> u64 {
    u64::from_le_bytes(bytes(v).try_into().unwrap())
}

/// an element whose preparation or writing panics
struct Boom(u64, u8);
unsafe impl VectorWrite<u64> for Boom {
    const STRIDE: usize = 8;
    type Value = u64;
    fn prepare(&self, b: &mut Builder) -> u64 {
        if self.1 == 1 {
            b.create_string("half way");
            panic!("boom");
        }
        self.0
    }
    unsafe fn write_values(_v: &[u64], _b: *mut MaybeUninit<u8>, _p: u32) {
        panic!("boom")
    }
}

macro_rules! opt {
    ($o:expr, $k:ident, $v:expr) => {
        match $v[stringify!($k)].as_i64().unwrap() {
            x if x < 0 => None,
            x => Some($o[x as usize].clone()),
        }
    };
}

struct Run {
    b: Builder,
    objs: Vec<Obj>,
}
impl Run {
    /// returns offsets (distance from the end) of what was created
    fn step(&mut self, v: &Value) -> Vec<u32> {
        let b = &mut self.b;
        let mut res = vec![];
        let o = match v["op"].as_str().unwrap() {
            "str" => {
                let o = match v["how"].as_u64().unwrap_or(0) {
                    0 => b.create_string(s(&v["x"])),
                    1 => b.create_string(s(&v["x"]).as_str()),
                    2 => <String as WriteAs<Offset<str>>>::prepare(&s(&v["x"]), b),
                    _ => <str as WriteAsOffset<str>>::prepare(&s(&v["x"]), b),
                };
                res.push(back(o));
                Obj::Str(o)
            }
            "bytes" => {
                let x = bytes(&v["x"]);
                let o = match (v["how"].as_u64().unwrap_or(0), x.len()) {
                    (1, 2) => b.create_vector([x[0], x[1]]),
                    (1, 3) => b.create_vector(&[x[0], x[1], x[2]]),
                    (2, _) => b.create_vector(x.as_slice()),
                    _ => b.create_vector(x),
                };
                res.push(back(o));
                Obj::Bytes(o)
            }
            "ibytes" => {
                let x: Vec<i8> = bytes(&v["x"]).into_iter().map(|x| x as i8).collect();
                let o = b.create_vector(x);
                res.push(back(o));
                Obj::IBytes(o)
            }
            "v64" => {
                let x: Vec<u64> = v["x"].as_array().unwrap().iter().map(w64).collect();
                let o = match (v["how"].as_u64().unwrap_or(0), x.len()) {
                    (1, 1) => b.create_vector([x[0]]),
                    (1, 2) => b.create_vector(&[x[0], x[1]]),
                    (2, _) => b.create_vector(x.as_slice()),
                    _ => b.create_vector(x),
                };
                res.push(back(o));
                Obj::V64(o)
            }
            "vstr" => {
                let x: Vec<String> = v["x"].as_array().unwrap().iter().map(s).collect();
                let o = match v["how"].as_u64().unwrap_or(0) {
                    1 if x.len() == 2 => b.create_vector([x[0].as_str(), x[1].as_str()]),
                    2 => b.create_vector(x.iter().map(|x| x.as_str()).collect::<Vec<_>>()),
                    _ => b.create_vector(x),
                };
                res.push(back(o));
                Obj::VStr(o)
            }
            "vref" => {
                let x: Vec<Offset<str>> = v["x"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|k| match &self.objs[k.as_u64().unwrap() as usize] {
                        Obj::Str(o) => *o,
                        _ => panic!("vref"),
                    })
                    .collect();
                let o = b.create_vector(x);
                res.push(back(o));
                Obj::VStr(o)
            }
            "many" => {
                for x in v["x"].as_array().unwrap() {
                    res.push(back(b.create_string(s(x))));
                }
                Obj::None
            }
            "un" => {
                let o = match v["tag"].as_u64().unwrap() {
                    1 => match &self.objs[v["x"].as_u64().unwrap() as usize] {
                        Obj::Tab(t) => U::create_node(b, *t),
                        _ => panic!("un"),
                    },
                    2 => {
                        let st = S { x: w64(&v["x"][1][0][1]), y: bytes(&v["x"][1][1][1])[0] };
                        U::create_s(b, &st)
                    }
                    _ => match &self.objs[v["x"].as_u64().unwrap() as usize] {
                        Obj::Str(t) => U::builder().txt(*t).finish(b),
                        _ => panic!("un"),
                    },
                };
                res.push(back(o.offset()));
                Obj::Un(o)
            }
            "tab" => {
                macro_rules! get {
                    ($k:ident, $c:ident) => {
                        opt!(self.objs, $k, v).map(|x| match x {
                            Obj::$c(o) => o,
                            _ => panic!("tab"),
                        })
                    };
                }
                let o = Node::create(
                    b,
                    v["a"].as_u64().unwrap() as u8,
                    w64(&v["w"]),
                    get!(s, Str),
                    get!(b, Bytes),
                    get!(n, Tab),
                    get!(u, Un),
                    get!(vs, VStr),
                    get!(i, IBytes),
                    get!(v, V64),
                    v["e"].as_i64().unwrap() as i16,
                );
                res.push(back(o));
                Obj::Tab(o)
            }
            "fin" => {
                let id = v["id"].as_array().filter(|a| !a.is_empty()).map(|_| <[u8; 4]>::try_from(bytes(&v["id"])).unwrap());
                let n = match &self.objs[v["r"].as_u64().unwrap() as usize] {
                    Obj::Tab(o) => b.finish(*o, id).to_vec(),
                    _ => panic!("fin"),
                };
                assert!(n == b.as_slice(), "finish and as_slice differ");
                Obj::None
            }
            "boom" => {
                let how = v["how"].as_u64().unwrap() as u8;
                let r = catch_unwind(AssertUnwindSafe(|| b.create_vector(vec![Boom(1, 0), Boom(2, how)])));
                assert!(r.is_err());
                Obj::None
            }
            "clear" => {
                b.clear();
                Obj::None
            }
            _ => panic!("op"),
        };
        self.objs.push(o);
        res
    }
}
/// adjacent equal items as [item, count]
fn runs<T: PartialEq + Copy + serde::Serialize>(x: impl IntoIterator<Item = T>) -> Value {
    let mut out: Vec<(T, usize)> = vec![];
    for b in x {
        match out.last_mut() {
            Some(l) if l.0 == b => l.1 += 1,
            _ => out.push((b, 1)),
        }
    }
    json!(out)
}
fn spread(x: &Value) -> Value {
    let mut out = vec![];
    for r in x.as_array().unwrap() {
        for _ in 0..r[1].as_u64().unwrap() {
            out.push(r[0].clone());
        }
    }
    Value::Array(out)
}
/// the same operation with the runs of its contents written out
fn inflate(v: &Value) -> Value {
    let mut v = v.clone();
    match v["op"].as_str().unwrap() {
        "str" | "bytes" | "ibytes" | "v64" => v["x"] = spread(&v["x"]),
        "vstr" => v["x"] = v["x"].as_array().unwrap().iter().map(spread).collect(),
        _ => {}
    }
    v
}
/// what the generated reader says about the root table
fn reading(b: &[u8]) -> Value {
    use planus::ReadAsRoot;
    let t = g::bld::NodeRef::read_as_root(b).unwrap();
    let one = |x: Option<Value>| x.map_or(json!([]), |x| json!([x]));
    json!([
        one(t.s().unwrap().map(|x| runs(x.bytes()))),
        one(t.b().unwrap().map(|x| runs(x.iter().copied()))),
        one(t.i().unwrap().map(|x| runs(x.iter().map(|x| *x as u8)))),
        one(t.v().unwrap().map(|x| {
            assert!(x.get(x.len()).is_none());
            runs(x.iter().map(|x| x.to_le_bytes()))
        })),
    ])
}
fn run_wide(cap: usize, ops: &[Value], skip: usize) -> Value {
    let mut r = Run { b: if cap == 0 { Builder::new() } else { Builder::with_capacity(cap) }, objs: vec![Obj::None; skip] };
    let mut out = vec![];
    for v in &ops[skip..] {
        let boom = v["op"] == "boom";
        let x = inflate(v);
        match catch_unwind(AssertUnwindSafe(|| {
            let o = r.step(&x);
            let read = if v["op"] == "fin" { reading(r.b.as_slice()) } else { json!([]) };
            (o, read)
        })) {
            Ok((o, read)) => {
                let bytes: &[u8] = if boom { &[] } else { r.b.as_slice() };
                let len = r.b.len();
                let e = r.b.is_empty();
                out.push(json!({"off": o, "buf": runs(bytes.iter().copied()), "read": read, "len": if boom { 0 } else { len }, "empty": if boom { true } else { e }, "panic": ""}))
            }
            Err(e) => {
                out.push(json!({"off": [], "buf": [], "read": [], "len": 0, "empty": true, "panic": rtlib::msg(e)}));
                break;
            }
        }
    }
    Value::Array(out)
}
fn run(cap: usize, ops: &[Value], skip: usize) -> Value {
    // objects are referred to by operation number, so a fresh run pretends to have skipped some
    let mut r = Run { b: if cap == 0 { Builder::new() } else { Builder::with_capacity(cap) }, objs: vec![Obj::None; skip] };
    let mut out = vec![];
    for v in &ops[skip..] {
        let boom = v["op"] == "boom";
        match catch_unwind(AssertUnwindSafe(|| r.step(v))) {
            Ok(o) => {
                let bytes: &[u8] = if boom { &[] } else { r.b.as_slice() };
                let len = r.b.len();
                let e = r.b.is_empty();
                out.push(json!({"off": o, "buf": bytes, "len": if boom { 0 } else { len }, "empty": if boom { true } else { e }, "panic": ""}))
            }
            Err(e) => {
                out.push(json!({"off": [], "buf": [], "len": 0, "empty": true, "panic": rtlib::msg(e)}));
                break;
            }
        }
    }
    Value::Array(out)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let inp = std::io::BufReader::new(std::fs::File::open(&a[1]).unwrap());
    let mut out = std::io::BufWriter::new(std::fs::File::create(&a[2]).unwrap());
    for l in inp.lines() {
        let j: Value = serde_json::from_str(&l.unwrap()).unwrap();
        let ops = j["ops"].as_array().unwrap();
        let cap = j["cap"].as_u64().unwrap() as usize;
        let skip = ops.iter().rposition(|v| v["op"] == "clear").map_or(0, |x| x + 1);
        let run = if j["wide"] == true { run_wide } else { run };
        let r = json!({"ops": ops, "got": run(cap, ops, 0), "skip": skip, "fresh": run(0, ops, skip)});
        serde_json::to_writer(&mut out, &r).unwrap();
        out.write_all(b"\n").unwrap();
    }
    out.flush().unwrap();
}
