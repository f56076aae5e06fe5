#![recursion_limit = "1024"]
//! Runtime support for the generated glue: turning values read through planus into the
//! JSON views of spec/Wire.tla, and JSON values into owned values / builder calls.
use planus::{errors::ErrorKind, Builder, Offset};
pub use serde_json;
pub mod probe;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Cx {
    pub iter: bool,
    pub k: usize,
    pub nodes: usize,
    pub debug: usize,
}
impl Cx {
    pub fn new(iter: bool, k: usize) -> Self {
        Cx { iter, k, nodes: 0, debug: 1 }
    }
    pub fn n(&mut self) {
        self.nodes += 1;
        if self.nodes > 3000 {
            std::panic::panic_any(TooBig);
        }
    }
    /// the Debug implementation of the first few readers must not panic either
    pub fn dbg<T: core::fmt::Debug>(&mut self, t: &T) {
        if self.debug > 0 {
            self.debug -= 1;
            struct Sink(usize);
            impl std::fmt::Write for Sink {
                fn write_str(&mut self, s: &str) -> std::fmt::Result {
                    self.0 += s.len();
                    if self.0 > 50000 {
                        return Err(std::fmt::Error);
                    }
                    Ok(())
                }
            }
            let _ = std::fmt::write(&mut Sink(0), format_args!("{t:?}"));
        }
    }
}
pub struct TooBig;

pub fn sc(b: &[u8]) -> Value {
    json!(["sc", b])
}
pub fn by<const N: usize>(v: &Value) -> [u8; N] {
    let a: Vec<u8> = v[1].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
    a.try_into().unwrap()
}
pub fn bytes(v: &Value) -> Vec<u8> {
    v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect()
}

// ------------------------------------------------------------------ views
pub trait Vw {
    fn vw(&self, c: &mut Cx, d: u32) -> Value;
}
macro_rules! prim {
    ($($t:ty),*) => {$(
        impl Vw for $t { fn vw(&self, _c: &mut Cx, _d: u32) -> Value { sc(&self.to_le_bytes()) } }
        impl Fv for $t { fn fv(v: &Value) -> Self { <$t>::from_le_bytes(by(v)) } }
        impl Pre for $t { type Out = $t; fn pre(v: &Value, _b: &mut Builder) -> $t { Fv::fv(v) } }
        prev!($t, $t);
    )*};
}
#[macro_export]
macro_rules! prev {
    ($t:ty, $p:ty) => {
        impl $crate::PreV for $t {
            type VOut = ::planus::Offset<[$p]>;
            fn prev(v: &[$crate::serde_json::Value], b: &mut ::planus::Builder) -> Self::VOut {
                let mut xs = Vec::new();
                for x in v {
                    xs.push(<$t as $crate::Pre>::pre(x, b));
                }
                $crate::arr!(b, create_vector, xs)
            }
        }
    };
}
#[macro_export]
macro_rules! prevu {
    ($t:ty) => {
        impl $crate::PreV for $t {
            type VOut = ::planus::UnionVectorOffset<$t>;
            fn prev(v: &[$crate::serde_json::Value], b: &mut ::planus::Builder) -> Self::VOut {
                let mut xs = Vec::new();
                for x in v {
                    xs.push(<$t as $crate::Pre>::pre(x, b));
                }
                $crate::arr!(b, create_union_vector, xs)
            }
        }
    };
}
#[macro_export]
macro_rules! arr {
    ($b:ident, $f:ident, $xs:ident) => {
        match $xs.len() {
            1 => {
                let mut it = $xs.into_iter();
                $b.$f([it.next().unwrap()])
            }
            2 => {
                let mut it = $xs.into_iter();
                $b.$f([it.next().unwrap(), it.next().unwrap()])
            }
            3 => {
                let mut it = $xs.into_iter();
                $b.$f(&[it.next().unwrap(), it.next().unwrap(), it.next().unwrap()])
            }
            4 => $b.$f($xs.as_slice()),
            _ => $b.$f($xs),
        }
    };
}
prim!(u8, i8, u16, i16, u32, i32, u64, i64, f32, f64);
prev!(bool, bool);
prev!(String, Offset<str>);

impl Vw for bool {
    fn vw(&self, _c: &mut Cx, _d: u32) -> Value {
        sc(&[*self as u8])
    }
}
impl Vw for str {
    fn vw(&self, c: &mut Cx, _d: u32) -> Value {
        c.n();
        json!(["str", self.as_bytes()])
    }
}
impl Vw for String {
    fn vw(&self, c: &mut Cx, d: u32) -> Value {
        self.as_str().vw(c, d)
    }
}
impl<T: Vw + ?Sized> Vw for &T {
    fn vw(&self, c: &mut Cx, d: u32) -> Value {
        (**self).vw(c, d)
    }
}
impl<T: Vw + ?Sized> Vw for Box<T> {
    fn vw(&self, c: &mut Cx, d: u32) -> Value {
        (**self).vw(c, d)
    }
}
impl<T: Vw> Vw for Option<T> {
    fn vw(&self, c: &mut Cx, d: u32) -> Value {
        match self {
            None => json!(["none"]),
            Some(x) => x.vw(c, d),
        }
    }
}
pub fn err(kind: &ErrorKind) -> (String, Value) {
    match kind {
        ErrorKind::InvalidOffset => ("InvalidOffset".into(), json!([])),
        ErrorKind::InvalidLength => ("InvalidLength".into(), json!([])),
        ErrorKind::UnionVectorLengthsMismatched { tags_len, values_len } => {
            ("UnionVectorLengthsMismatched".into(), json!([cap(*tags_len), cap(*values_len)]))
        }
        ErrorKind::UnknownEnumTag { source } => ("UnknownEnumTag".into(), json!(source.tag.to_le_bytes()[..9])),
        ErrorKind::UnknownUnionTag { tag } => ("UnknownUnionTag".into(), json!([tag])),
        ErrorKind::InvalidVtableLength { length } => ("InvalidVtableLength".into(), json!([length])),
        ErrorKind::InvalidUtf8 { source } => ("InvalidUtf8".into(), json!([source.valid_up_to()])),
        ErrorKind::MissingRequired => ("MissingRequired".into(), json!([])),
        ErrorKind::MissingNullTerminator => ("MissingNullTerminator".into(), json!([])),
        _ => ("Other".into(), json!([])),
    }
}
pub fn cap(x: usize) -> usize {
    x.min(1 << 30)
}
/// Does the text of an error name the number, in some base?
fn named(text: &str, x: i128) -> bool {
    let a = x.unsigned_abs();
    (x >= 0 || text.contains('-'))
        && text.split(|c: char| !c.is_ascii_alphanumeric()).any(|t| {
            t == a.to_string() || t.trim_start_matches("0x").eq_ignore_ascii_case(&format!("{a:x}"))
        })
}
/// Does the text of an error tell the type, the accessor, the position and the offending number?
fn told(text: &str, at: &planus::errors::ErrorLocation, kind: &ErrorKind) -> bool {
    text.contains(at.type_)
        && text.contains(at.method)
        && (at.byte_offset == usize::MAX || named(text, at.byte_offset as i128))
        && match kind {
            ErrorKind::UnionVectorLengthsMismatched { tags_len, values_len } => named(text, *tags_len as i128) && named(text, *values_len as i128),
            ErrorKind::UnknownEnumTag { source } => named(text, source.tag),
            ErrorKind::UnknownUnionTag { tag } => named(text, *tag as i128),
            ErrorKind::InvalidVtableLength { length } => named(text, *length as i128),
            _ => true,
        }
}
pub fn errv(e: &planus::Error) -> Value {
    let (k, d) = err(&e.error_kind);
    // Display and source chains must be total as well
    let _ = e.to_string();
    let mut s: Option<&dyn std::error::Error> = Some(e);
    while let Some(x) = s {
        let _ = x.to_string();
        s = x.source();
    }
    let text = e.to_string();
    if !told(&text, &e.source_location, &e.error_kind) {
        return json!(["err", k, d, "does not say where", text]);
    }
    json!(["err", k, d, e.source_location.type_, e.source_location.method, e.source_location.byte_offset])
}
impl<T: Vw> Vw for planus::Result<T> {
    fn vw(&self, c: &mut Cx, d: u32) -> Value {
        match self {
            Ok(x) => x.vw(c, d),
            Err(e) => errv(e),
        }
    }
}
impl<T: Vw> Vw for Result<T, planus::errors::UnknownEnumTag> {
    fn vw(&self, c: &mut Cx, d: u32) -> Value {
        match self {
            Ok(x) => x.vw(c, d),
            Err(e) => {
                let (text, whole) = (e.to_string(), planus::Error::from(e.clone()));
                if !told(&text, &whole.source_location, &whole.error_kind) {
                    return json!(["err", "UnknownEnumTag", [], "does not say where", text]);
                }
                errv(&whole)
            }
        }
    }
}
impl<'a, T: Vw + planus::VectorRead<'a>> Vw for planus::Vector<'a, T> {
    fn vw(&self, c: &mut Cx, d: u32) -> Value {
        c.n();
        let k = c.k;
        let mut out = Vec::new();
        if c.iter {
            for x in self.iter().take(k) {
                out.push(x.vw(c, d));
            }
        } else {
            for i in 0..self.len().min(k) {
                out.push(self.get(i).unwrap().vw(c, d));
            }
        }
        json!(["vec", cap(self.len()), out])
    }
}
impl<'a, T: Vw + planus::VectorReadUnion<'a>> Vw for planus::UnionVector<'a, T> {
    fn vw(&self, c: &mut Cx, d: u32) -> Value {
        c.n();
        let k = c.k;
        let mut out = Vec::new();
        if c.iter {
            for x in self.iter().take(k) {
                out.push(x.vw(c, d));
            }
        } else {
            for i in 0..self.len().min(k) {
                out.push(self.get(i).unwrap().vw(c, d));
            }
        }
        json!(["vec", cap(self.len()), out])
    }
}
impl<T: Vw> Vw for [T] {
    fn vw(&self, c: &mut Cx, d: u32) -> Value {
        c.n();
        let k = c.k;
        let v: Vec<Value> = self.iter().take(k).map(|x| x.vw(c, d)).collect();
        json!(["vec", cap(self.len()), v])
    }
}
impl<T: Vw> Vw for Vec<T> {
    fn vw(&self, c: &mut Cx, d: u32) -> Value {
        self.as_slice().vw(c, d)
    }
}

// ------------------------------------------------------------------ values
pub trait Fv {
    fn fv(v: &Value) -> Self;
}
impl Fv for bool {
    fn fv(v: &Value) -> Self {
        by::<1>(v)[0] != 0
    }
}
impl Fv for String {
    fn fv(v: &Value) -> Self {
        String::from_utf8(bytes(&v[1])).unwrap()
    }
}
impl<T: Fv> Fv for Box<T> {
    fn fv(v: &Value) -> Self {
        Box::new(T::fv(v))
    }
}
impl<T: Fv> Fv for Option<T> {
    fn fv(v: &Value) -> Self {
        if v[0] == "none" {
            None
        } else {
            Some(T::fv(v))
        }
    }
}
impl<T: Fv> Fv for Vec<T> {
    fn fv(v: &Value) -> Self {
        v[2].as_array().unwrap().iter().map(T::fv).collect()
    }
}

// ------------------------------------------------------------------ prepared children
pub trait Pre {
    type Out;
    fn pre(v: &Value, b: &mut Builder) -> Self::Out;
}
pub trait PreV {
    type VOut;
    fn prev(v: &[Value], b: &mut Builder) -> Self::VOut;
}
impl Pre for bool {
    type Out = bool;
    fn pre(v: &Value, _b: &mut Builder) -> bool {
        Fv::fv(v)
    }
}
impl Pre for String {
    type Out = Offset<str>;
    fn pre(v: &Value, b: &mut Builder) -> Offset<str> {
        b.create_string(String::fv(v))
    }
}
impl<T: PreV> Pre for Vec<T> {
    type Out = T::VOut;
    fn pre(v: &Value, b: &mut Builder) -> Self::Out {
        T::prev(v[2].as_array().unwrap(), b)
    }
}
pub trait Create: Sized {
    fn create_(v: &Value, b: &mut Builder) -> Offset<Self>;
    fn chain_(v: &Value, b: &mut Builder) -> Offset<Self>;
    fn minimal_(v: &Value, b: &mut Builder) -> Offset<Self>;
}

pub fn write_root<T>(v: &Value, how: &str, b: &mut Builder, id: Option<[u8; 4]>) -> Vec<u8>
where
    T: Fv + Create + Pre<Out = Offset<T>> + planus::WriteAsOffset<T>,
{
    match how {
        "owned" => b.finish(T::fv(v), id).to_vec(),
        "ownedref" => b.finish(&T::fv(v), id).to_vec(),
        "create" => {
            let o = T::create_(v, b);
            b.finish(o, id).to_vec()
        }
        "chain" => {
            let o = T::chain_(v, b);
            b.finish(o, id).to_vec()
        }
        "minimal" => {
            let o = T::minimal_(v, b);
            b.finish(o, id).to_vec()
        }
        "offsets" => {
            let o = T::pre(v, b);
            b.finish(o, id).to_vec()
        }
        _ => panic!("how"),
    }
}

/// [view, owned view, nodes]; owned is ["skip"] when the view is too large to convert
pub fn read_root<'a, R, O>(b: &'a [u8], iter: bool, d: u32, k: usize) -> Value
where
    R: planus::ReadAsRoot<'a> + Vw + Clone,
    O: TryFrom<R, Error = planus::Error> + Vw,
{
    let mut c = Cx::new(iter, k);
    let mut dk = (d, k);
    let (r, view) = loop {
        let res = catch_unwind(AssertUnwindSafe(|| {
            let r = R::read_as_root(b);
            let v = r.vw(&mut c, dk.0);
            (r, v)
        }));
        match res {
            Ok(x) => break x,
            Err(e) => {
                if e.downcast_ref::<TooBig>().is_some() && dk.1 > 1 {
                    dk = (dk.0.min(4), dk.1 / 4);
                    c = Cx::new(iter, dk.1);
                    continue;
                }
                return json!([["panic", msg(e)], ["skip"], 0, dk.0, dk.1]);
            }
        }
    };
    let full = dk == (d, k) && c.nodes < 1500;
    let owned = match r {
        Ok(r) if full => match catch_unwind(AssertUnwindSafe(|| O::try_from(r))) {
            Ok(Ok(o)) => catch_unwind(AssertUnwindSafe(|| o.vw(&mut Cx::new(false, k), d))).unwrap_or(json!(["skip"])),
            Ok(Err(e)) => errv(&e),
            Err(e) => json!(["panic", msg(e)]),
        },
        _ => json!(["skip"]),
    };
    json!([view, owned, c.nodes, dk.0, dk.1])
}
pub fn msg(e: Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into())
}

extern "C" {
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn mprotect(a: *mut u8, l: usize, p: i32) -> i32;
}
/// A region whose last (or first) accessible byte borders on inaccessible memory: reading
/// outside a buffer placed against the border ends the process.
pub struct Guard {
    base: *mut u8,
    size: usize,
}
impl Guard {
    pub fn new(pages: usize) -> Self {
        let size = pages * 4096;
        unsafe {
            let p = mmap(std::ptr::null_mut(), size + 8192, 3, 0x22, -1, 0);
            assert!(p as isize != -1);
            assert_eq!(mprotect(p, 4096, 0), 0);
            assert_eq!(mprotect(p.add(4096 + size), 4096, 0), 0);
            Guard { base: p.add(4096), size }
        }
    }
    pub fn at_end(&mut self, b: &[u8]) -> &[u8] {
        unsafe {
            let p = self.base.add(self.size - b.len());
            std::ptr::copy_nonoverlapping(b.as_ptr(), p, b.len());
            std::slice::from_raw_parts(p, b.len())
        }
    }
    pub fn at_start(&mut self, b: &[u8]) -> &[u8] {
        unsafe {
            std::ptr::copy_nonoverlapping(b.as_ptr(), self.base, b.len());
            std::slice::from_raw_parts(self.base, b.len())
        }
    }
}
