//! Runs buffer inspection and inspector sessions and records what they show.
//! usage: insp jobs.ndjson out.ndjson scratch-dir
//! job: {op: "map"|"keys", s, j: declaration name, ns, b: bytes, keys: [key | ["draw"|"screen", w, h]]}
//! the first line is {schemas: [text, ...]}
use crossterm::event::{KeyCode, KeyEvent, KeyModifiers};
use planus_buffer_inspection::object_info::DeclarationInfo;
use planus_buffer_inspection::{InspectableFlatbuffer, Object};
use planus_inspector::{ActiveWindow, Inspector, ModalState, ViewState};
use planus_types::ast::FloatType;
use planus_types::intermediate::*;
use ratatui::{backend::TestBackend, style::Modifier, Terminal};
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

type Fb<'a> = InspectableFlatbuffer<'a>;

fn last(d: &Declarations, i: DeclarationIndex) -> Value {
    json!(d.get_declaration(i).0 .0.last().unwrap())
}

/// kind, position, declared name
fn ident(o: &Object<'_>, d: &Declarations) -> (&'static str, u32, Value) {
    let e = json!("");
    match o {
        Object::Offset(x) => ("off", x.offset, e),
        Object::VTable(x) => ("vtable", x.offset, last(d, x.declaration_index())),
        Object::Table(x) => ("table", x.offset, last(d, x.declaration_index())),
        Object::Struct(x) => ("struct", x.offset, last(d, x.declaration_index())),
        Object::UnionTag(x) => ("tag", x.offset, last(d, x.declaration_index())),
        Object::Union(x) => ("union", x.offset, last(d, x.declaration_index())),
        Object::Enum(x) => ("enum", x.offset, last(d, x.declaration_index())),
        Object::Vector(x) => ("vec", x.offset, e),
        Object::Integer(x) => ("int", x.offset, e),
        Object::Float(x) => ("float", x.offset, e),
        Object::Bool(x) => ("bool", x.offset, e),
        Object::String(x) => ("str", x.offset, e),
        Object::UnionVectorTags(_) => ("utags", o.offset(), e),
        Object::UnionVectorValues(_) => ("uvals", o.offset(), e),
        _ => ("other", o.offset(), e),
    }
}

/// undoes Rust's debug form of a string; returns the bytes and what follows
fn undebug(s: &str) -> Option<(Vec<u8>, String)> {
    let mut it = s.strip_prefix('"')?.chars();
    let mut out = String::new();
    loop {
        match it.next()? {
            '"' => return Some((out.into_bytes(), it.collect())),
            '\\' => match it.next()? {
                'n' => out.push('\n'),
                't' => out.push('\t'),
                'r' => out.push('\r'),
                '0' => out.push('\0'),
                'u' => {
                    let h: String = it.by_ref().take_while(|c| *c != '}').collect();
                    out.push(char::from_u32(u32::from_str_radix(h.strip_prefix('{')?, 16).ok()?)?)
                }
                c => out.push(c),
            },
            c => out.push(c),
        }
    }
}

fn le(v: i128, n: usize) -> Vec<u8> {
    v.to_le_bytes()[..n].to_vec()
}

/// the printed value read back: bytes and remaining text
fn value(o: &Object<'_>, name: &str, n: usize, b: &Fb<'_>) -> (Value, String) {
    let none = (json!([]), String::new());
    match o {
        Object::Integer(_) => name.parse::<i128>().map_or(none, |v| (json!(le(v, n)), String::new())),
        Object::Float(x) => match x.type_ {
            FloatType::F32 => name.parse::<f32>().map_or(none, |v| (json!(v.to_le_bytes()), String::new())),
            FloatType::F64 => name.parse::<f64>().map_or(none, |v| (json!(v.to_le_bytes()), String::new())),
        },
        Object::Enum(_) => match name.split_once('(').and_then(|x| Some((x.0, x.1.strip_suffix(')')?.parse::<i128>().ok()?))) {
            Some((p, v)) => (json!(le(v, n)), p.to_string()),
            None => none,
        },
        Object::String(_) => undebug(name).map_or(none, |(v, r)| (json!(v), r)),
        Object::Offset(x) => match x.follow_offset(b) {
            Ok(t @ Object::String(_)) => value(&t, name, n, b),
            Ok(Object::Vector(_)) => (json!([]), name.rsplit("; ").next().unwrap_or("").to_string()),
            _ => none,
        },
        Object::Vector(_) => (json!([]), name.rsplit("; ").next().unwrap_or("").to_string()),
        _ => none,
    }
}

fn find<'a>(d: &'a Declarations, ns: &str, j: &str) -> DeclarationIndex {
    let p = AbsolutePath(ns.split('.').chain([j]).filter(|x| !x.is_empty()).map(|s| s.to_string()).collect());
    DeclarationIndex(d.declarations.get_index_of(&p).expect("declared"))
}

fn map(b: Fb<'_>, root: DeclarationIndex) -> Value {
    let m = b.calculate_object_mapping(root);
    let d = b.declarations;
    let mut objs = vec![];
    for (i, (o, r)) in m.root_objects.iter().enumerate() {
        let (k, p, n) = ident(o, d);
        let mut lines = vec![];
        for l in m.line_tree(i, &b).flatten(&b) {
            let (k, p, n) = ident(&l.object, d);
            let (val, rest) = value(&l.object, &l.name, (l.end - l.start) as usize, &b);
            let to = match &l.object {
                Object::Offset(x) => match x.follow_offset(&b) {
                    Ok(t) => {
                        let (k, p, n) = ident(&t, d);
                        json!([k, p, n])
                    }
                    Err(_) => json!(["error"]),
                },
                _ => json!([]),
            };
            lines.push(json!({"k":k,"o":p,"n":n,"nm":l.name,"tx":l.line,"s":l.start,"e":l.end,"ind":l.indentation,
                "ls":l.start_line_index,"le":l.end_line_index,"par":l.parent_line_index,"w":l.object_width,
                "val":val,"rest":rest,"to":to}));
        }
        objs.push(json!({"k":k,"o":p,"n":n,"lo":r.0,"hi":r.1,"lines":lines}));
    }
    let (k, p, n) = ident(&m.root_object, d);
    json!({"objs": objs, "root": [k, p, n], "ints": ints(&b, &m)})
}

fn ints<'a>(b: &Fb<'a>, m: &planus_buffer_inspection::object_mapping::ObjectMapping<'a>) -> Value {
    json!((0..b.buffer.len() as u32)
        .map(|p| m
            .get_interpretations(p, b)
            .iter()
            .map(|x| json!([x.root_object_index + 1, x.lines]))
            .collect::<Vec<_>>())
        .collect::<Vec<_>>())
}

fn view(v: &ViewState<'_>) -> Value {
    json!({"byte": v.byte_index, "info": v.info_view_data.as_ref().map_or(json!([]), |d| {
        json!([d.root_object_index + 1, d.lines.index(), d.interpretations.index() + 1, d.interpretations.len(), d.lines.len()])
    })})
}

fn state(x: &Inspector<'_>) -> Value {
    json!({
        "view": view(&x.view_state),
        "stack": x.view_stack.iter().map(view).collect::<Vec<_>>(),
        "win": match x.active_window { ActiveWindow::ObjectView => "O", ActiveWindow::HexView => "H" },
        "quit": x.should_quit,
        "ls": x.hex_view_state.line_size,
        "lp": x.hex_view_state.line_pos,
        "dg": x.hex_view_state.max_offset_hex_digits,
        "first": x.view_state.info_view_data.as_ref().map_or(0, |d| d.first_line_shown),
        "modal": match &x.modal {
            None => json!(["none"]),
            Some(ModalState::GoToByte { input }) => json!(["goto", input]),
            Some(ModalState::ViewHistory { index }) => json!(["history", index]),
            Some(ModalState::HelpMenu) => json!(["help"]),
            Some(ModalState::TreeView { state, .. }) => json!(["tree", state.lines.index() + 1,
                state.lines.iter().map(|l| l.node.view_state.as_ref().map_or(json!({}), view)).collect::<Vec<_>>()]),
            Some(_) => json!(["other"]),
        },
    })
}

fn key(s: &str) -> KeyEvent {
    let (ctrl, s) = match s.strip_prefix("C-") {
        Some(r) => (true, r),
        None => (false, s),
    };
    let code = match s {
        "tab" => KeyCode::Tab,
        "enter" => KeyCode::Enter,
        "esc" => KeyCode::Esc,
        "bs" => KeyCode::Backspace,
        "up" => KeyCode::Up,
        "down" => KeyCode::Down,
        "left" => KeyCode::Left,
        "right" => KeyCode::Right,
        "pgup" => KeyCode::PageUp,
        "pgdn" => KeyCode::PageDown,
        "home" => KeyCode::Home,
        "end" => KeyCode::End,
        "del" => KeyCode::Delete,
        c => KeyCode::Char(c.chars().next().unwrap()),
    };
    KeyEvent::new(code, if ctrl { KeyModifiers::CONTROL } else { KeyModifiers::NONE })
}

/// the rows of the bordered area with the given title: text, and the underlined cells
fn area(t: &Terminal<TestBackend>, title: &str) -> Value {
    let b = t.backend().buffer();
    let (w, h) = (b.area.width, b.area.height);
    let sym = |x: u16, y: u16| b[(x, y)].symbol();
    for y in 0..h {
        let row: Vec<&str> = (0..w).map(|x| sym(x, y)).collect();
        let text = row.concat();
        if !text.contains(title) {
            continue;
        }
        let at = row.iter().position(|c| *c == "╭").unwrap_or(0) as u16;
        let end = row.iter().skip(at as usize).position(|c| *c == "╮").map_or(w, |x| x as u16 + at);
        let mut rows = vec![];
        let mut under = vec![];
        let mut yy = y + 1;
        while yy < h && sym(at, yy) == "│" {
            rows.push((at + 1..end).map(|x| sym(x, yy)).collect::<String>().trim_end().to_string());
            let u: String = (at + 1..end)
                .filter(|x| b[(*x, yy)].modifier.contains(Modifier::UNDERLINED))
                .map(|x| sym(x, yy))
                .collect();
            if !u.is_empty() {
                under.push(json!([rows.len(), u]));
            }
            yy += 1;
        }
        return json!({"rows": rows, "under": under, "w": end - at - 1});
    }
    json!({"rows": [], "under": [], "w": 0})
}

/// every cell: its text, and whether it is bold, underlined or reversed
fn screen(t: &Terminal<TestBackend>) -> Value {
    let b = t.backend().buffer();
    let (w, h) = (b.area.width, b.area.height);
    let rows: Vec<String> = (0..h).map(|y| (0..w).map(|x| b[(x, y)].symbol()).collect()).collect();
    let attrs: Vec<String> = (0..h)
        .map(|y| {
            (0..w)
                .map(|x| {
                    let m = b[(x, y)].modifier;
                    let on = |k, n| if m.contains(k) { n } else { 0u8 };
                    (b'0' + on(Modifier::BOLD, 1) + on(Modifier::UNDERLINED, 2) + on(Modifier::REVERSED, 4)) as char
                })
                .collect()
        })
        .collect();
    json!([rows, attrs])
}

fn keys(b: Fb<'_>, root: DeclarationIndex, ks: &[Value], out: &mut Vec<Value>) -> Value {
    let mut x = Inspector::new(b, root);
    let mut objs = vec![];
    for i in 0..x.object_mapping.root_objects.len() {
        let ls: Vec<Value> = x
            .object_mapping
            .line_tree(i, &b)
            .flatten(&b)
            .iter()
            .map(|l| {
                let to = match &l.object {
                    Object::Offset(o) => o
                        .follow_offset(&b)
                        .ok()
                        .and_then(|t| x.object_mapping.root_objects.get_index_of(&t))
                        .map_or(0, |i| i + 1),
                    _ => 0,
                };
                json!({"s":l.start,"e":l.end,"ls":l.start_line_index,"le":l.end_line_index,"par":l.parent_line_index,
                    "ind":l.indentation,"tx":l.line,"to":to,"off":matches!(l.object, Object::Offset(_)),"nm":l.name})
            })
            .collect();
        objs.push(json!({"at": x.object_mapping.root_objects.get_index(i).unwrap().0.offset(), "lines": ls}));
    }
    let rt = x.object_mapping.root_objects.get_index_of(&x.object_mapping.root_object).unwrap() + 1;
    out.push(json!({"objs": objs, "ints": ints(&b, &x.object_mapping), "root": rt, "st": state(&x)}));
    for k in ks {
        if let Some(k) = k.as_str() {
            let drew = x.on_key(key(k));
            out.push(json!({"key": [k], "st": state(&x), "draw": drew}));
            if x.should_quit {
                break;
            }
        } else {
            let (w, h) = (k[1].as_u64().unwrap() as u16, k[2].as_u64().unwrap() as u16);
            let mut t = Terminal::new(TestBackend::new(w, h)).unwrap();
            t.draw(|f| planus_inspector::ui::draw(f, &mut x)).unwrap();
            if k[0] == "screen" {
                out.push(json!({"screen": screen(&t)}));
                continue;
            }
            out.push(json!({"key": ["draw", w, h], "st": state(&x), "hex": area(&t, " Hex view "), "obj": area(&t, " Object view ")}));
        }
    }
    Value::Null
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut lines = std::io::BufReader::new(std::fs::File::open(&a[1]).unwrap()).lines();
    let mut out = std::io::BufWriter::new(std::fs::File::create(&a[2]).unwrap());
    let head: Value = serde_json::from_str(&lines.next().unwrap().unwrap()).unwrap();
    let mut ds = vec![];
    for (i, s) in head["schemas"].as_array().unwrap().iter().enumerate() {
        let p = std::path::Path::new(&a[3]).join(format!("s{i}.fbs"));
        std::fs::write(&p, s.as_str().unwrap()).unwrap();
        ds.push(planus_translation::translate_files(&[&p]).expect("schema accepted"));
    }
    let msg = std::sync::Arc::new(std::sync::Mutex::new(String::new()));
    let m2 = msg.clone();
    std::panic::set_hook(Box::new(move |i| *m2.lock().unwrap() = i.to_string().replace('\n', " ")));
    for l in lines {
        let j: Value = serde_json::from_str(&l.unwrap()).unwrap();
        let d = &ds[j["s"].as_u64().unwrap() as usize - 1];
        let bytes: Vec<u8> = j["b"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
        let root = find(d, j["ns"].as_str().unwrap(), j["j"].as_str().unwrap());
        let b = InspectableFlatbuffer { declarations: d, buffer: &bytes };
        let mut steps = vec![];
        let r = catch_unwind(AssertUnwindSafe(|| {
            if j["op"] == "map" {
                map(b, root)
            } else {
                keys(b, root, j["keys"].as_array().unwrap(), &mut steps)
            }
        }));
        let v = match r {
            Ok(v) if j["op"] == "map" => json!({"panic": "", "map": v}),
            Ok(_) => json!({"panic": "", "steps": steps}),
            Err(_) => json!({"panic": msg.lock().unwrap().chars().take(300).collect::<String>(), "steps": steps}),
        };
        writeln!(out, "{v}").unwrap();
    }
}
