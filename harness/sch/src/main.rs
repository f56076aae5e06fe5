//! Runs schema jobs through the front end and the generators of planus.
//! usage: sch jobs.ndjson out.ndjson scratch-dir
//! job: {op: translate|format, files: [[name, [bytes]]], main: [names], rust: bool, dot: bool, dump: bool}
use planus_types::ast::{FloatType, IntegerType};
use planus_types::intermediate::*;
use serde_json::{json, Value};
use std::io::{BufRead, Read, Seek, Write};
use std::os::fd::AsRawFd;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};

extern "C" {
    fn dup2(a: i32, b: i32) -> i32;
}

fn it(t: &IntegerType) -> &'static str {
    match t {
        IntegerType::U8 => "u8",
        IntegerType::I8 => "i8",
        IntegerType::U16 => "u16",
        IntegerType::I16 => "i16",
        IntegerType::U32 => "u32",
        IntegerType::I32 => "i32",
        IntegerType::U64 => "u64",
        IntegerType::I64 => "i64",
    }
}
fn int(v: &IntegerLiteral) -> (Value, &'static str) {
    use IntegerLiteral::*;
    match v {
        U8(x) => (json!(x.to_le_bytes()), "u8"),
        I8(x) => (json!(x.to_le_bytes()), "i8"),
        U16(x) => (json!(x.to_le_bytes()), "u16"),
        I16(x) => (json!(x.to_le_bytes()), "i16"),
        U32(x) => (json!(x.to_le_bytes()), "u32"),
        I32(x) => (json!(x.to_le_bytes()), "i32"),
        U64(x) => (json!(x.to_le_bytes()), "u64"),
        I64(x) => (json!(x.to_le_bytes()), "i64"),
    }
}
struct Dump<'a>(&'a Declarations);
impl Dump<'_> {
    fn path(&self, i: &DeclarationIndex) -> Value {
        json!(self.0.get_declaration(*i).0 .0)
    }
    fn simple(&self, t: &SimpleType) -> Value {
        match t {
            SimpleType::Struct(i) => json!(["struct", self.path(i)]),
            SimpleType::Enum(i) => json!(["enum", self.path(i)]),
            SimpleType::Bool => json!(["b", "bool"]),
            SimpleType::Integer(t) => json!(["b", it(t)]),
            SimpleType::Float(FloatType::F32) => json!(["b", "f32"]),
            SimpleType::Float(FloatType::F64) => json!(["b", "f64"]),
        }
    }
    fn ty(&self, t: &TypeKind) -> Value {
        match t {
            TypeKind::Table(i) => json!(["table", self.path(i)]),
            TypeKind::Union(i) => json!(["union", self.path(i)]),
            TypeKind::Vector(t) => json!(["vec", self.ty(&t.kind)]),
            TypeKind::Array(t, n) => json!(["arr", self.ty(&t.kind), n]),
            TypeKind::SimpleType(t) => self.simple(t),
            TypeKind::String => json!(["b", "str"]),
        }
    }
    fn lit(&self, l: &Literal) -> Value {
        match l {
            Literal::Bool(b) => json!(["bool", b]),
            Literal::String(s) => json!(["str", s.as_bytes()]),
            Literal::Int(i) => json!(["int", int(i).1, int(i).0]),
            Literal::Float(FloatLiteral::F32(x)) => json!(["float", "f32", x.to_le_bytes()]),
            Literal::Float(FloatLiteral::F64(x)) => json!(["float", "f64", x.to_le_bytes()]),
            Literal::Array(v) => json!(["array", v.iter().map(|x| self.lit(x)).collect::<Vec<_>>()]),
            Literal::Vector(v) => json!(["vec", v.iter().map(|x| self.lit(x)).collect::<Vec<_>>()]),
            Literal::EnumTag { variant_index, value } => json!(["enum", variant_index, int(value).0]),
        }
    }
    fn docs(&self, d: &planus_types::ast::Docstrings) -> Value {
        json!(d.docstrings.iter().map(|x| x.value.as_bytes()).collect::<Vec<_>>())
    }
    fn all(&self) -> Value {
        let ds: Vec<Value> = self
            .0
            .iter_declarations()
            .map(|(_, path, d)| {
                let mut o = json!({"path": path.0, "doc": self.docs(&d.docstrings), "ns": self.0.get_namespace(d.namespace_id).0 .0});
                match &d.kind {
                    DeclarationKind::Table(t) => {
                        o["k"] = json!("table");
                        o["f"] = t
                            .fields
                            .iter()
                            .map(|(n, f)| {
                                json!({"n": n, "slot": f.vtable_index, "t": self.ty(&f.type_.kind), "dep": f.deprecated,
                                    "mode": match &f.assign_mode { AssignMode::Required => json!(["req"]), AssignMode::Optional => json!(["opt"]),
                                        AssignMode::HasDefault(l) => json!(["def", self.lit(l)]) },
                                    "align": f.object_alignment, "size": f.object_value_size, "tag": f.object_tag_kind.size(), "doc": self.docs(&f.docstrings)})
                            })
                            .collect();
                        o["vsize"] = json!(t.max_vtable_size);
                    }
                    DeclarationKind::Struct(t) => {
                        o["k"] = json!("struct");
                        o["size"] = json!(t.size);
                        o["align"] = json!(t.alignment);
                        o["f"] = t
                            .fields
                            .iter()
                            .map(|(n, f)| json!({"n": n, "t": self.simple(&f.type_), "off": f.offset, "size": f.size, "pad": f.padding_after_field, "doc": self.docs(&f.docstrings)}))
                            .collect();
                    }
                    DeclarationKind::Enum(t) => {
                        o["k"] = json!("enum");
                        o["base"] = json!(it(&t.type_));
                        o["v"] = t
                            .variants
                            .iter()
                            .map(|(l, v)| json!({"n": v.name, "v": int(l).0, "base": int(l).1, "doc": self.docs(&v.docstrings)}))
                            .collect();
                    }
                    DeclarationKind::Union(t) => {
                        o["k"] = json!("union");
                        o["v"] = t.variants.iter().map(|(n, v)| json!({"n": n, "t": self.ty(&v.type_.kind), "doc": self.docs(&v.docstrings)})).collect();
                    }
                    DeclarationKind::RpcService(_) => o["k"] = json!("rpc"),
                }
                o
            })
            .collect();
        let ns: Vec<Value> = self
            .0
            .namespaces
            .iter()
            .map(|(p, n)| {
                json!({"path": p.0, "doc": self.docs(&n.docstrings),
                    "decls": n.declaration_ids.iter().map(|(n, i)| json!([n, self.path(i)])).collect::<Vec<_>>(),
                    "children": n.child_namespaces.iter().map(|(n, i)| json!([n, self.0.get_namespace(*i).0.0])).collect::<Vec<_>>()})
            })
            .collect();
        json!({"d": ds, "ns": ns})
    }
}

fn msg(e: Box<dyn std::any::Any + Send>) -> String {
    let s = e
        .downcast_ref::<String>()
        .cloned()
        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "panic".into());
    if s.is_empty() { "panic".into() } else { s }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::fs::create_dir_all(&a[3]).unwrap();
    let work = std::fs::canonicalize(&a[3]).unwrap();
    let mut err = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(work.join("stderr")).unwrap();
    unsafe { dup2(err.as_raw_fd(), 2) };
    std::panic::set_hook(Box::new(|_| {}));
    let inp = std::io::BufReader::new(std::fs::File::open(&a[1]).unwrap());
    let mut out = std::io::BufWriter::new(std::fs::File::create(&a[2]).unwrap());
    let root = work.join("j");
    std::env::set_current_dir(&work).unwrap();
    for l in inp.lines() {
        let j: Value = serde_json::from_str(&l.unwrap()).unwrap();
        std::fs::create_dir_all(&root).unwrap();
        // with a deep working directory the files may be named by paths that lead up
        let deep = j["deep"].as_bool().unwrap_or(false);
        let base = Path::new(if deep { "" } else { "j" });
        if deep {
            std::fs::create_dir_all(root.join("p/q/r")).unwrap();
            std::env::set_current_dir(root.join("p/q/r")).unwrap();
        }
        for f in j["files"].as_array().unwrap() {
            let p = base.join(f[0].as_str().unwrap());
            if let Some(d) = p.parent().filter(|d| !d.as_os_str().is_empty()) {
                std::fs::create_dir_all(d).unwrap();
            }
            let bytes: Vec<u8> = match &f[1] {
                Value::String(s) => s.as_bytes().to_vec(),
                v => v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect(),
            };
            std::fs::write(&p, bytes).unwrap();
        }
        let mains: Vec<PathBuf> = j["main"].as_array().unwrap().iter().map(|x| base.join(x.as_str().unwrap())).collect();
        let on = |k: &str| j[k].as_bool().unwrap_or(false);
        err.set_len(0).unwrap();
        err.rewind().unwrap();
        let r = catch_unwind(AssertUnwindSafe(|| match j["op"].as_str().unwrap() {
            "translate" => {
                let d = if j["docs"].is_boolean() || j["meta"].is_boolean() {
                    planus_translation::translate_files_with_options(
                        &mains,
                        planus_translation::ConverterOptions { ignore_docstring_errors: on("docs"), ignore_unknown_metadata: on("meta") },
                    )
                } else {
                    planus_translation::translate_files(&mains)
                };
                match d {
                    None => json!({"ok": false, "panic": ""}),
                    Some(d) => {
                        let mut o = json!({"ok": true, "panic": ""});
                        if on("dump") {
                            o["dump"] = Dump(&d).all();
                        }
                        if on("rust") {
                            o["rust"] = match planus_codegen::generate_rust(&d, on("fmt")) {
                                Ok(s) => json!(s),
                                Err(e) => json!({"err": e.to_string()}),
                            };
                        }
                        if on("dot") {
                            o["dot"] = json!(planus_codegen::generate_dot(&d));
                        }
                        o
                    }
                }
            }
            "format" => match planus_translation::format_file(&mains[0], on("lenient")) {
                None => json!({"ok": false, "panic": ""}),
                Some(s) => json!({"ok": true, "panic": "", "text": s.as_bytes()}),
            },
            _ => panic!("op"),
        }));
        let mut r = r.unwrap_or_else(|e| json!({"ok": false, "panic": msg(e)}));
        let mut s = vec![];
        err.rewind().unwrap();
        err.read_to_end(&mut s).unwrap();
        let s = String::from_utf8_lossy(&s);
        r["errors"] = json!(s.lines().filter(|l| l.starts_with("error")).count());
        r["at"] = s
            .lines()
            .filter_map(|l| l.split_once("┌─ "))
            .filter_map(|(_, l)| {
                let mut p = l.trim().rsplitn(3, ':');
                let (c, n) = (p.next()?.parse::<u32>().ok()?, p.next()?.parse::<u32>().ok()?);
                Some(json!([p.next().map(|p| if deep { p } else { p.strip_prefix("j/").unwrap_or("") })?, n, c]))
            })
            .collect();
        if on("stderr") {
            r["stderr"] = json!(s);
        }
        std::env::set_current_dir(&work).unwrap();
        let _ = std::fs::remove_dir_all(&root);
        serde_json::to_writer(&mut out, &r).unwrap();
        out.write_all(b"\n").unwrap();
        out.flush().unwrap();
    }
    out.flush().unwrap();
    let _ = std::fs::remove_dir_all(&work);
}
