//! Lists what generated Rust code declares.
//! usage: inv in.ndjson out.ndjson    in: {"text": [bytes]}
//! out: {"ok": bool, "why": string, "items": [..]} where an item is
//!   {m: [module path], k: "mod"|"struct"|"enum"|..., n: name, pub: bool, g: number of type parameters,
//!    f: [{n, pub, t}], v: [{n, d: value, t: [..]}]}  or  {m, k: "impl", n: name of the type, tr: name of the trait or "", f: [{n, pub, t: result, a: number of arguments}]}
//! A type is [segments.., [arguments..]] for a path, ["&", t], ["[", t], ["[;", t], ["(", t..], ["impl"], ["?"].
use planus as _;
use serde as _;
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use syn::*;

fn ty(t: &Type) -> Value {
    match t {
        Type::Path(p) => {
            let mut seg: Vec<Value> = vec![];
            let mut args: Vec<Value> = vec![];
            for s in &p.path.segments {
                seg.push(json!(s.ident.to_string()));
                if let PathArguments::AngleBracketed(a) = &s.arguments {
                    for x in &a.args {
                        if let GenericArgument::Type(t) = x {
                            args.push(ty(t));
                        }
                    }
                }
            }
            json!(["path", p.path.leading_colon.is_some(), seg, args])
        }
        Type::Reference(r) => json!(["ref", ty(&r.elem)]),
        Type::Slice(s) => json!(["slice", ty(&s.elem)]),
        Type::Array(a) => json!(["array", ty(&a.elem)]),
        Type::Tuple(x) => json!(["tuple", x.elems.iter().map(ty).collect::<Vec<_>>()]),
        Type::Paren(x) => ty(&x.elem),
        Type::Group(x) => ty(&x.elem),
        _ => json!(["other"]),
    }
}
fn public(v: &Visibility) -> bool {
    matches!(v, Visibility::Public(_))
}
fn fields(f: &Fields) -> Vec<Value> {
    f.iter()
        .map(|f| json!({"n": f.ident.as_ref().map_or(String::new(), |i| i.to_string()), "pub": public(&f.vis), "t": ty(&f.ty)}))
        .collect()
}
fn num(e: &Expr) -> Option<i128> {
    match e {
        Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) => i.base10_parse::<i128>().ok(),
        Expr::Unary(ExprUnary { op: UnOp::Neg(_), expr, .. }) => num(expr).map(|x| -x),
        Expr::Paren(p) => num(&p.expr),
        _ => None,
    }
}
/// the value of a variant, as bytes
fn disc(v: &Variant) -> Value {
    match v.discriminant.as_ref().and_then(|(_, e)| num(e)) {
        Some(x) => json!(&x.to_le_bytes()[..8]),
        None => json!([]),
    }
}
fn items(at: &[String], xs: &[Item], out: &mut Vec<Value>) {
    for x in xs {
        let mut add = |k: &str, n: &Ident, p: bool, g: usize, f: Vec<Value>, v: Vec<Value>| {
            out.push(json!({"m": at, "k": k, "n": n.to_string(), "pub": p, "g": g, "f": f, "v": v}));
        };
        match x {
            Item::Mod(m) => {
                add("mod", &m.ident, public(&m.vis), 0, vec![], vec![]);
                if let Some((_, ys)) = &m.content {
                    let mut to = at.to_vec();
                    to.push(m.ident.to_string());
                    items(&to, ys, out);
                }
            }
            Item::Struct(s) => add("struct", &s.ident, public(&s.vis), s.generics.type_params().count(), fields(&s.fields), vec![]),
            Item::Enum(e) => add(
                "enum",
                &e.ident,
                public(&e.vis),
                e.generics.type_params().count(),
                vec![],
                e.variants.iter().map(|v| json!({"n": v.ident.to_string(), "d": disc(v), "t": v.fields.iter().map(|f| ty(&f.ty)).collect::<Vec<_>>()})).collect(),
            ),
            Item::Union(u) => add("union", &u.ident, public(&u.vis), 0, vec![], vec![]),
            Item::Type(t) => add("type", &t.ident, public(&t.vis), 0, vec![], vec![]),
            Item::Trait(t) => add("trait", &t.ident, public(&t.vis), 0, vec![], vec![]),
            Item::Impl(i) => {
                if let Type::Path(p) = &*i.self_ty {
                    if let Some(s) = p.path.segments.last() {
                        let mut fs = vec![];
                        for y in &i.items {
                            if let ImplItem::Fn(f) = y {
                                let r = match &f.sig.output {
                                    ReturnType::Default => json!(["tuple", []]),
                                    ReturnType::Type(_, t) => ty(t),
                                };
                                fs.push(json!({"n": f.sig.ident.to_string(), "pub": public(&f.vis), "t": r, "a": f.sig.inputs.len()}));
                            }
                        }
                        let tr = i.trait_.as_ref().map_or(String::new(), |t| t.1.segments.last().unwrap().ident.to_string());
                        // the types a trait is instantiated with, by the last parts of their names
                        let of = i.trait_.as_ref().map_or(vec![], |t| match &t.1.segments.last().unwrap().arguments {
                            PathArguments::AngleBracketed(a) => a.args.iter().filter_map(|g| match g {
                                GenericArgument::Type(Type::Path(p)) => p.path.segments.last().map(|s| s.ident.to_string()),
                                _ => None,
                            }).collect(),
                            _ => vec![],
                        });
                        out.push(json!({"m": at, "k": "impl", "n": s.ident.to_string(), "tr": tr, "of": of, "f": fs}));
                    }
                }
            }
            _ => (),
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut out = std::io::BufWriter::new(std::fs::File::create(&a[2]).unwrap());
    for l in std::io::BufReader::new(std::fs::File::open(&a[1]).unwrap()).lines() {
        let v: Value = serde_json::from_str(&l.unwrap()).unwrap();
        let b: Vec<u8> = v["text"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
        let r = match parse_file(&String::from_utf8_lossy(&b)) {
            Ok(f) => {
                let mut xs = vec![];
                items(&[], &f.items, &mut xs);
                json!({"ok": true, "why": "", "items": xs})
            }
            Err(e) => json!({"ok": false, "why": e.to_string(), "items": []}),
        };
        writeln!(out, "{}", r).unwrap();
    }
}
