// Replays the transitions of spec/VectorIter.tla (exported by TLC) into the
// real vector views and iterators. Arguments: rows.ndjson depth
#![allow(dead_code, unused_imports, clippy::all)]
use planus::{ReadAsRoot, WriteAsOffset};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;
use std::ops::Bound;
use std::panic::{catch_unwind, AssertUnwindSafe};

mod g {
    include!(concat!(env!("OUT_DIR"), "/vecs.rs"));
}
use g::vecs::*;

const HUGE: u64 = 999; // the specification's stand-in for usize::MAX

fn num(x: u64) -> usize {
    if x == HUGE { usize::MAX } else { x as usize }
}
/// All the values the stand-in covers: beyond every length here, and such that products with
/// chunk and element sizes wrap around to small numbers.
fn large(k: usize) -> Vec<usize> {
    let m = usize::MAX;
    let mut v = vec![m - 1, m / 2, m / 2 + 1, 1 << 32, (1 << 32) + 1, 1 << 31, (1 << 62) + 1];
    for d in [k, k.saturating_mul(4), k.saturating_mul(8), 3, 4, 8, 12, 16] {
        if d > 1 {
            v.extend([m / d, m / d + 1, m / d + 2]);
        }
    }
    v.retain(|x| *x > 10000);
    v.sort();
    v.dedup();
    v
}
type Rng = Option<(usize, usize)>;
fn rng(v: &Value) -> Rng {
    let a = v.as_array().unwrap();
    if a.is_empty() { None } else { Some((a[0].as_u64().unwrap() as usize, a[1].as_u64().unwrap() as usize)) }
}

struct Row {
    rest: Vec<Rng>,
    rem: Rng,
    fw: Vec<(usize, Rng, usize, usize)>,
    bw: Vec<(usize, Rng, usize, usize)>,
}
type Key = (String, usize, usize, usize, usize);
struct Tables {
    it: HashMap<Key, Row>,
    vec: HashMap<usize, Value>,
    ks: Vec<usize>,
    max_n: usize,
}

fn steps(v: &Value) -> Vec<(usize, Rng, usize, usize)> {
    v.as_array().unwrap().iter().map(|r| (num(r[0].as_u64().unwrap()), rng(&r[1]), r[2].as_u64().unwrap() as usize, r[3].as_u64().unwrap() as usize)).collect()
}

fn load(path: &str) -> Tables {
    let mut t = Tables { it: HashMap::new(), vec: HashMap::new(), ks: vec![], max_n: 0 };
    for l in std::fs::read_to_string(path).unwrap().lines() {
        let v: Value = serde_json::from_str(l).unwrap();
        let n = v["n"].as_u64().unwrap() as usize;
        t.max_n = t.max_n.max(n);
        if v["t"] == "vec" {
            t.vec.insert(n, v);
        } else {
            let k = num(v["k"].as_u64().unwrap());
            if !t.ks.contains(&k) { t.ks.push(k) }
            t.it.insert(
                (v["kind"].as_str().unwrap().to_string(), n, k, v["a"].as_u64().unwrap() as usize, v["b"].as_u64().unwrap() as usize),
                Row { rest: v["rest"].as_array().unwrap().iter().map(rng).collect(), rem: rng(&v["rem"]), fw: steps(&v["fw"]), bw: steps(&v["bw"]) },
            );
        }
    }
    t
}

thread_local! { static PATH: RefCell<Vec<String>> = RefCell::new(vec![]); }
fn push(s: String) { PATH.with(|p| p.borrow_mut().push(s)) }
fn pop() { PATH.with(|p| { p.borrow_mut().pop(); }) }
fn path() -> Vec<String> { PATH.with(|p| p.borrow().clone()) }

struct Out { fails: Vec<Value>, obs: u64, steps: u64, walks: u64 }
impl Out {
    fn expect<T: PartialEq + std::fmt::Debug>(&mut self, what: &str, got: T, want: T) {
        self.obs += 1;
        if got != want && self.fails.len() < 200 {
            self.fails.push(json!({"path": path(), "observe": what, "got": format!("{got:?}"), "want": format!("{want:?}")}));
        }
    }
}

fn ids(r: Rng, base: usize) -> Option<Vec<usize>> { r.map(|(l, h)| (l + base..h + base).collect()) }

fn walk<I, F, R>(t: &Tables, o: &mut Out, kind: &str, n: usize, k: usize, a: usize, b: usize, it: &I, item: &F, rem: &R, base: usize, depth: usize)
where
    I: Clone + DoubleEndedIterator + ExactSizeIterator,
    F: Fn(I::Item) -> Vec<usize>,
    R: Fn(&I) -> Option<Vec<usize>>,
{
    let row = &t.it[&(kind.to_string(), n, k, a, b)];
    let rest: Vec<Vec<usize>> = row.rest.iter().map(|r| ids(*r, base).unwrap()).collect();
    o.expect("len", it.len(), b - a);
    o.expect("size_hint", it.size_hint(), (b - a, Some(b - a)));
    o.expect("count", it.clone().count(), b - a);
    o.expect("last", it.clone().last().map(item), rest.last().cloned());
    o.expect("collect", it.clone().map(item).collect::<Vec<_>>(), rest.clone());
    let mut rev = rest.clone();
    rev.reverse();
    o.expect("rev", it.clone().rev().map(item).collect::<Vec<_>>(), rev);
    o.expect("fold", it.clone().fold(0usize, |acc, x| acc * 31 + item(x).iter().sum::<usize>()), rest.iter().fold(0usize, |acc, x| acc * 31 + x.iter().sum::<usize>()));
    if kind.ends_with("exact") {
        o.expect("remainder", rem(it), ids(row.rem, base));
    }
    if depth == 0 {
        return;
    }
    for (m, res, a2, b2) in &row.fw {
        let mut c = it.clone();
        push(format!("nth({m})"));
        o.steps += 1;
        let got = if *m == 0 && depth % 2 == 0 { c.next() } else { c.nth(*m) };
        o.expect("result", got.map(item), ids(*res, base));
        walk(t, o, kind, n, k, *a2, *b2, &c, item, rem, base, depth - 1);
        pop();
        if *m == usize::MAX && depth % 2 == 0 {
            for m in large(k) {
                let mut c = it.clone();
                push(format!("nth({m})"));
                o.steps += 1;
                o.expect("result", c.nth(m).map(item), ids(*res, base));
                walk(t, o, kind, n, k, *a2, *b2, &c, item, rem, base, 0);
                pop();
            }
        }
    }
    for (m, res, a2, b2) in &row.bw {
        let mut c = it.clone();
        push(format!("nth_back({m})"));
        o.steps += 1;
        let got = if *m == 0 && depth % 2 == 0 { c.next_back() } else { c.nth_back(*m) };
        o.expect("result", got.map(item), ids(*res, base));
        walk(t, o, kind, n, k, *a2, *b2, &c, item, rem, base, depth - 1);
        pop();
        if *m == usize::MAX && depth % 2 == 0 {
            for m in large(k) {
                let mut c = it.clone();
                push(format!("nth_back({m})"));
                o.steps += 1;
                o.expect("result", c.nth_back(m).map(item), ids(*res, base));
                walk(t, o, kind, n, k, *a2, *b2, &c, item, rem, base, 0);
                pop();
            }
        }
    }
}

fn bound(v: &Value) -> Bound<usize> {
    match v[0].as_str().unwrap() {
        "incl" => Bound::Included(num(v[1].as_u64().unwrap())),
        "excl" => Bound::Excluded(num(v[1].as_u64().unwrap())),
        _ => Bound::Unbounded,
    }
}

fn bounds(s: Bound<usize>, e: Bound<usize>) -> Vec<(Bound<usize>, Bound<usize>)> {
    let all = |x: Bound<usize>| match x {
        Bound::Included(usize::MAX) => large(1).into_iter().map(Bound::Included).collect::<Vec<_>>(),
        Bound::Excluded(usize::MAX) => large(1).into_iter().map(Bound::Excluded).collect::<Vec<_>>(),
        _ => vec![],
    };
    let mut v = vec![(s, e)];
    v.extend(all(s).into_iter().map(|s| (s, e)));
    v.extend(all(e).into_iter().map(|e| (s, e)));
    v
}

macro_rules! explore {
    ($t:expr, $o:expr, $name:expr, $vec:expr, $elem:expr, $depth:expr) => {{
        let (t, o): (&Tables, &mut Out) = ($t, $o);
        let full = $vec;
        let elem = $elem;
        for base in 0..3usize {
            for n in 0..=t.max_n {
                PATH.with(|p| p.borrow_mut().clear());
                push(format!("{} elements {base}..{} of a vector of {}", $name, base + n, full.len()));
                let r = catch_unwind(AssertUnwindSafe(|| {
                    let v = full.get(base..base + n).unwrap();
                    let list = lister(full, &elem);
                    // direct operations
                    let row = &t.vec[&n];
                    o.expect("vector.len", v.len(), n);
                    o.expect("vector.is_empty", v.is_empty(), n == 0);
                    o.expect("vector.first", v.first().map(|x| elem(x)), if n == 0 { None } else { Some(base) });
                    o.expect("vector.last", v.last().map(|x| elem(x)), if n == 0 { None } else { Some(base + n - 1) });
                    o.expect("vector.into_iter", v.into_iter().map(|x| elem(x)).collect::<Vec<_>>(), (base..base + n).collect());
                    for r in row["get"].as_array().unwrap() {
                        let i = num(r[0].as_u64().unwrap());
                        for i in if i == usize::MAX { [vec![i], large(1)].concat() } else { vec![i] } {
                            push(format!("get({i})"));
                            o.expect("get", v.get(i).map(|x| vec![elem(x)]), ids(rng(&r[1]), base));
                            if let Some(want) = ids(rng(&r[1]), base) {
                                o.expect("get_unchecked", vec![elem(unsafe { v.get_unchecked(i) })], want);
                            }
                            pop();
                        }
                    }
                    for r in row["split"].as_array().unwrap() {
                        let i = num(r[0].as_u64().unwrap());
                        for i in if i == usize::MAX { [vec![i], large(1)].concat() } else { vec![i] } {
                        push(format!("split_at({i})"));
                        let want = if r[1].as_array().unwrap().is_empty() { None } else { Some((ids(rng(&r[1][0]), base).unwrap(), ids(rng(&r[1][1]), base).unwrap())) };
                        if let Some(want) = want.clone() {
                            let (x, y) = unsafe { v.split_at_unchecked(i) };
                            o.expect("split_at_unchecked", (list(x), list(y)), want);
                        }
                        o.expect("split_at", v.split_at(i).map(|(x, y)| (list(x), list(y))), want);
                        pop();
                        }
                    }
                    let want = if n == 0 { None } else { Some((base, ids(rng(&row["sf"][1]), base).unwrap())) };
                    o.expect("split_first", v.split_first().map(|(x, y)| (elem(x), list(y))), want);
                    let want = if n == 0 { None } else { Some((base + n - 1, ids(rng(&row["sl"][1]), base).unwrap())) };
                    o.expect("split_last", v.split_last().map(|(x, y)| (elem(x), list(y))), want);
                    for r in row["ranges"].as_array().unwrap() {
                        let want = ids(rng(&r[2]), base);
                        // where the stand-in occurs, every value it covers has the same outcome
                        for (s, e) in bounds(bound(&r[0]), bound(&r[1])) {
                        let want = want.clone();
                        push(format!("get({s:?}, {e:?})"));
                        o.expect("get bounds", v.get((s, e)).map(|x| list(x)), want.clone());
                        if let Some(want) = want.clone() {
                            o.expect("get_unchecked bounds", list(unsafe { v.get_unchecked((s, e)) }), want.clone());
                            match (s, e) {
                                (Bound::Included(s), Bound::Excluded(e)) => o.expect("get_unchecked s..e", list(unsafe { v.get_unchecked(s..e) }), want),
                                (Bound::Included(s), Bound::Included(e)) => o.expect("get_unchecked s..=e", list(unsafe { v.get_unchecked(s..=e) }), want),
                                (Bound::Included(s), Bound::Unbounded) => o.expect("get_unchecked s..", list(unsafe { v.get_unchecked(s..) }), want),
                                (Bound::Unbounded, Bound::Excluded(e)) => o.expect("get_unchecked ..e", list(unsafe { v.get_unchecked(..e) }), want),
                                (Bound::Unbounded, Bound::Included(e)) => o.expect("get_unchecked ..=e", list(unsafe { v.get_unchecked(..=e) }), want),
                                (Bound::Unbounded, Bound::Unbounded) => o.expect("get_unchecked ..", list(unsafe { v.get_unchecked(..) }), want),
                                _ => {}
                            }
                        }
                        match (s, e) {
                            (Bound::Included(s), Bound::Excluded(e)) => o.expect("get s..e", v.get(s..e).map(|x| list(x)), want.clone()),
                            (Bound::Included(s), Bound::Included(e)) => o.expect("get s..=e", v.get(s..=e).map(|x| list(x)), want.clone()),
                            (Bound::Included(s), Bound::Unbounded) => o.expect("get s..", v.get(s..).map(|x| list(x)), want.clone()),
                            (Bound::Unbounded, Bound::Excluded(e)) => o.expect("get ..e", v.get(..e).map(|x| list(x)), want.clone()),
                            (Bound::Unbounded, Bound::Included(e)) => o.expect("get ..=e", v.get(..=e).map(|x| list(x)), want.clone()),
                            (Bound::Unbounded, Bound::Unbounded) => o.expect("get ..", v.get(..).map(|x| list(x)), want.clone()),
                            _ => {}
                        }
                        pop();
                        }
                    }
                }));
                if r.is_err() {
                    let p = path();
                    o.fails.push(json!({"path": p, "observe": "panic", "got": "panic", "want": "no panic"}));
                }
                if base > 1 && n > 5 { continue; }
                let depth: usize = if base == 0 { $depth } else { $depth - 1 };
                for &k in &t.ks {
                    macro_rules! kind {
                        ($kind:expr, $it:ident, $rem:expr) => {{
                            PATH.with(|p| p.borrow_mut().clear());
                            push(format!("{} elements {base}..{}: {}({k})", $name, base + n, $kind));
                            o.walks += 1;
                            let r = catch_unwind(AssertUnwindSafe(|| {
                                let v = full.get(base..base + n).unwrap();
                                let list = lister(full, &elem);
                                let it = v.$it(k);
                                if k == usize::MAX {
                                    // any size beyond the length gives the same items
                                    for k2 in large(1) {
                                        let want = t.it[&($kind.to_string(), n, k, 0, v.$it(k).len())].rest.iter().map(|r| ids(*r, base).unwrap()).collect::<Vec<_>>();
                                        push(format!("size {k2}"));
                                        o.expect("collect", v.$it(k2).map(|x| list(x)).collect::<Vec<_>>(), want.clone());
                                        o.expect("len", v.$it(k2).len(), want.len());
                                        o.expect("next_back", v.$it(k2).next_back().map(|x| list(x)), want.last().cloned());
                                        for m in [0, 1, 2, 3, usize::MAX / 2, usize::MAX] {
                                            o.expect("nth", v.$it(k2).nth(m).map(|x| list(x)), want.get(m).cloned());
                                            o.expect("nth_back", v.$it(k2).nth_back(m).map(|x| list(x)), want.len().checked_sub(m).and_then(|x| x.checked_sub(1)).map(|x| want[x].clone()));
                                        }
                                        pop();
                                    }
                                }
                                let b = t.it.keys().filter(|x| x.0 == $kind && x.1 == n && x.2 == k).map(|x| x.4).max().unwrap();
                                walk(t, o, $kind, n, k, 0, b, &it, &|x| list(x), &$rem(&list), base, depth);
                            }));
                            if r.is_err() {
                                let p = path();
                                o.fails.push(json!({"path": p, "observe": "panic", "got": "panic", "want": "no panic"}));
                            }
                        }};
                    }
                    if k == 1 {
                        PATH.with(|p| p.borrow_mut().clear());
                        push(format!("{} elements {base}..{}: iter", $name, base + n));
                        o.walks += 1;
                        let r = catch_unwind(AssertUnwindSafe(|| {
                            let v = full.get(base..base + n).unwrap();
                            walk(t, o, "iter", n, k, 0, n, &v.iter(), &|x| vec![elem(x)], &|_| None, base, depth);
                        }));
                        if r.is_err() {
                            let p = path();
                            o.fails.push(json!({"path": p, "observe": "panic", "got": "panic", "want": "no panic"}));
                        }
                    }
                    kind!("chunks", chunks, |_| |_: &_| None);
                    kind!("rchunks", rchunks, |_| |_: &_| None);
                    kind!("windows", windows, |_| |_: &_| None);
                    kind!("chunks_exact", chunks_exact, |l| rem_fn(l));
                    kind!("rchunks_exact", rchunks_exact, |l| rem_fn(l));
                }
                // a size of zero panics, as for slices
                let v = full.get(base..base + n).unwrap();
                push("size 0".into());
                o.expect("chunks(0) panics", catch_unwind(AssertUnwindSafe(|| { let _ = v.chunks(0); })).is_err(), true);
                o.expect("windows(0) panics", catch_unwind(AssertUnwindSafe(|| { let _ = v.windows(0); })).is_err(), true);
                pop();
            }
        }
    }};
}

trait Vw: Copy { type It; fn at(self, i: usize) -> Option<Self::It>; fn n(self) -> usize; }
impl<'a, T: planus::VectorRead<'a>> Vw for planus::Vector<'a, T> { type It = T; fn at(self, i: usize) -> Option<T> { self.get(i) } fn n(self) -> usize { self.len() } }
impl<'a, T: planus::VectorReadUnion<'a>> Vw for planus::UnionVector<'a, T> { type It = planus::Result<T>; fn at(self, i: usize) -> Option<planus::Result<T>> { self.get(i) } fn n(self) -> usize { self.len() } }
fn lister<V: Vw, F: Fn(V::It) -> usize>(_: V, f: F) -> impl Fn(V) -> Vec<usize> { move |v| (0..v.n()).map(|i| f(v.at(i).unwrap())).collect() }
fn rem_fn<'l, R: HasRem, L: Fn(R::V) -> Vec<usize>>(l: &'l L) -> impl Fn(&R) -> Option<Vec<usize>> + 'l { move |r| Some(l(r.rem_())) }
trait HasRem { type V; fn rem_(&self) -> Self::V; }
impl<'a, T: planus::VectorRead<'a>> HasRem for planus::vectors::ChunksExact<'a, T> { type V = planus::Vector<'a, T>; fn rem_(&self) -> Self::V { self.remainder() } }
impl<'a, T: planus::VectorRead<'a>> HasRem for planus::vectors::RChunksExact<'a, T> { type V = planus::Vector<'a, T>; fn rem_(&self) -> Self::V { self.remainder() } }
impl<'a, T: planus::VectorReadUnion<'a>> HasRem for planus::union_vectors::ChunksExact<'a, T> { type V = planus::UnionVector<'a, T>; fn rem_(&self) -> Self::V { self.remainder() } }
impl<'a, T: planus::VectorReadUnion<'a>> HasRem for planus::union_vectors::RChunksExact<'a, T> { type V = planus::UnionVector<'a, T>; fn rem_(&self) -> Self::V { self.remainder() } }
fn rem_of<R: HasRem>(r: &R) -> R::V { r.rem_() }

// A buffer another producer could have written: the same vector of unions, with
// the vector of tags as the very last object of the buffer.
fn foreign(len: usize) -> Vec<u8> {
    let mut b: Vec<u8> = vec![];
    let u32_ = |b: &mut Vec<u8>, x: usize| b.extend((x as u32).to_le_bytes());
    u32_(&mut b, 0); // root, patched
    let vt = b.len();
    b.extend(30u16.to_le_bytes());
    b.extend(12u16.to_le_bytes());
    for slot in 0..13 {
        b.extend((if slot == 11 { 4u16 } else if slot == 12 { 8 } else { 0 }).to_le_bytes());
    }
    while b.len() % 4 != 0 { b.push(0) }
    let table = b.len();
    b[0..4].copy_from_slice(&(table as u32).to_le_bytes());
    u32_(&mut b, table - vt);
    let (ftags, fvals) = (b.len(), b.len() + 4);
    u32_(&mut b, 0);
    u32_(&mut b, 0);
    let vals = b.len();
    b[fvals..fvals + 4].copy_from_slice(&((vals - fvals) as u32).to_le_bytes());
    u32_(&mut b, len);
    for _ in 0..len { u32_(&mut b, 0) }
    for i in 0..len {
        while b.len() % 4 != 0 { b.push(0) }
        let (at, pos) = (b.len(), vals + 4 + 4 * i);
        b[pos..pos + 4].copy_from_slice(&((at - pos) as u32).to_le_bytes());
        u32_(&mut b, i);
        b.extend(std::iter::repeat(b'y').take(i));
        b.push(0);
    }
    while b.len() % 4 != 0 { b.push(0) }
    let at = b.len();
    b[ftags..ftags + 4].copy_from_slice(&((at - ftags) as u32).to_le_bytes());
    u32_(&mut b, len);
    for _ in 0..len { b.push(3) }
    b
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let t = load(&args[1]);
    let depth: usize = args[2].parse().unwrap();
    let len = t.max_n + 3;
    let value = V {
        u16s: Some((0..len as u16).collect()),
        i32s: Some((0..len as i32).map(|x| -x).collect()),
        u64s: Some((0..len as u64).map(|x| x << 40).collect()),
        f32s: Some((0..len).map(|x| x as f32 + 0.5).collect()),
        f64s: Some((0..len).map(|x| x as f64 + 0.25).collect()),
        u8s: Some((0..len as u8).collect()),
        enums: Some((0..len as u8).map(|x| E::try_from(x).ok().unwrap()).collect()),
        structs: Some((0..len as u32).map(|x| S { a: x, b: !x, c: x as u8 }).collect()),
        ws: Some((0..len as u64).map(|x| W { a: x << 33, b: x as u16 }).collect()),
        strs: Some((0..len).map(|x| "x".repeat(x)).collect()),
        tables: Some((0..len as u32).map(|x| T { a: x + 1 }).collect()),
        unions: Some((0..len).map(|x| match x % 4 {
            0 => U::T(Box::new(T { a: x as u32 })),
            1 => U::T2(Box::new(T2 { s: None, a: x as u32 })),
            2 => U::Txt("y".repeat(x)),
            _ => U::S(S { a: x as u32, b: !(x as u32), c: x as u8 }),
        }).collect()),
    };
    let mut b = planus::Builder::new();
    let buf = b.finish(&value, None).to_vec();
    let v = VRef::read_as_root(&buf).unwrap();
    let bad = usize::MAX / 2;
    let fbuf = foreign(len);
    let fv = VRef::read_as_root(&fbuf).unwrap();
    // one thread per element type
    let results: Vec<Out> = std::thread::scope(|s| {
        let t = &t;
        let mut hs: Vec<std::thread::ScopedJoinHandle<Out>> = vec![];
        macro_rules! go {
            ($name:expr, $vec:expr, $elem:expr, $d:expr) => {
                let d = $d;
                hs.push(s.spawn(move || {
                    let mut o = Out { fails: vec![], obs: 0, steps: 0, walks: 0 };
                    explore!(t, &mut o, $name, $vec, $elem, d);
                    o
                }));
            };
        }
        go!("u16", v.u16s().unwrap().unwrap(), |x: u16| x as usize, depth);
        go!("i32", v.i32s().unwrap().unwrap(), |x: i32| (-x) as usize, depth - 1);
        go!("u64", v.u64s().unwrap().unwrap(), |x: u64| if x & ((1 << 40) - 1) == 0 { (x >> 40) as usize } else { bad }, depth);
        go!("f32", v.f32s().unwrap().unwrap(), |x: f32| if x.fract() == 0.5 { x.trunc() as usize } else { bad }, depth - 1);
        go!("f64", v.f64s().unwrap().unwrap(), |x: f64| if x.fract() == 0.25 { x.trunc() as usize } else { bad }, depth - 1);
        go!("enum", v.enums().unwrap().unwrap(), |x: Result<E, planus::errors::UnknownEnumTag>| match x { Ok(e) => u8::from(e) as usize, Err(_) => bad }, depth - 1);
        go!("struct12", v.structs().unwrap().unwrap(), |x: SRef| if x.b() == !x.a() && x.c() as u32 == x.a() { x.a() as usize } else { bad }, depth);
        go!("struct16", v.ws().unwrap().unwrap(), |x: WRef| if x.a() == (x.b() as u64) << 33 { x.b() as usize } else { bad }, depth - 1);
        go!("string", v.strs().unwrap().unwrap(), |x: planus::Result<&str>| match x { Ok(s) => s.len(), Err(_) => bad }, depth);
        go!("table", v.tables().unwrap().unwrap(), |x: planus::Result<TRef>| match x.and_then(|x| x.a()) { Ok(s) => (s as usize).wrapping_sub(1), Err(_) => bad }, depth - 1);
        go!("union", v.unions().unwrap().unwrap(), |x: planus::Result<URef>| match x {
            Ok(URef::T(x)) => x.a().map(|a| a as usize).ok().filter(|a| a % 4 == 0).unwrap_or(bad),
            Ok(URef::T2(x)) => x.a().map(|a| a as usize).ok().filter(|a| a % 4 == 1).unwrap_or(bad),
            Ok(URef::Txt(x)) => if x.len() % 4 == 2 { x.len() } else { bad },
            Ok(URef::S(x)) => if x.a() % 4 == 3 && x.b() == !x.a() { x.a() as usize } else { bad },
            Err(_) => bad,
        }, depth);
        go!("union, tags at the end of the buffer", fv.unions().unwrap().unwrap(), |x: planus::Result<URef>| match x {
            Ok(URef::Txt(x)) => x.len(),
            _ => bad,
        }, depth - 1);
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut fails = vec![];
    let (mut obs, mut steps, mut walks) = (0, 0, 0);
    for o in results {
        fails.extend(o.fails);
        obs += o.obs;
        steps += o.steps;
        walks += o.walks;
    }
    // byte vectors are read as plain slices
    if v.u8s().unwrap().unwrap() != (0..len as u8).collect::<Vec<_>>().as_slice() {
        fails.push(json!({"path": ["u8s"], "observe": "slice", "got": format!("{:?}", v.u8s()), "want": "0..len"}));
    }
    println!("{}", json!({"fails": fails, "obs": obs, "steps": steps, "walks": walks}));
}
