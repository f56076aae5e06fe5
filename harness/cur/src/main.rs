//! Replays programs over initialisation cursors.
//! usage: cur programs.ndjson out.ndjson        (a program: {n, prog: [[op, cursor, number, values]]})
//!        cur early N K mode                    (stop by a panic with K of N elements written)
use array_init_cursor::Cursor;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{BufRead, Write};
use std::mem::MaybeUninit;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! { static DROPS: RefCell<Vec<u32>> = RefCell::new(vec![]); }

trait El: Sized {
    const NAME: &'static str;
    fn make(v: u32) -> Self;
    fn get(raw: &[u8]) -> u32;
}
macro_rules! prim { ($t:ty, $n:expr) => {
    impl El for $t {
        const NAME: &'static str = $n;
        fn make(v: u32) -> Self { v as $t }
        fn get(raw: &[u8]) -> u32 { if raw.iter().all(|b| *b == 0xA5) { 0 } else { <$t>::from_le_bytes(raw.try_into().unwrap()) as u32 } }
    }
}; }
prim!(u8, "u8");
prim!(u32, "u32");
prim!(u128, "u128");
/// dropping is recorded
struct Rc(u32);
impl Drop for Rc {
    fn drop(&mut self) {
        DROPS.with(|d| d.borrow_mut().push(self.0))
    }
}
impl El for Rc {
    const NAME: &'static str = "rc";
    fn make(v: u32) -> Self { Rc(v) }
    fn get(raw: &[u8]) -> u32 { <u32 as El>::get(raw) }
}
struct Zst;
impl Drop for Zst {
    fn drop(&mut self) {
        DROPS.with(|d| d.borrow_mut().push(0))
    }
}
impl El for Zst {
    const NAME: &'static str = "zst";
    fn make(_: u32) -> Self { Zst }
    fn get(_: &[u8]) -> u32 { 0 }
}
/// an odd size
#[derive(Clone, Copy)]
#[allow(dead_code)]
#[repr(C)]
struct Odd(u8, [u8; 2]);
impl El for Odd {
    const NAME: &'static str = "odd";
    fn make(v: u32) -> Self { Odd(v as u8, [1, 2]) }
    fn get(raw: &[u8]) -> u32 {
        if raw == [0xA5; 3] { 0 } else if raw[1..] != [1, 2] { u32::MAX >> 1 } else { raw[0] as u32 }
    }
}

trait Cur<'a, T: El> {
    fn len(&self) -> usize;
    fn split(self: Box<Self>, k: usize) -> (Dyn<'a, T>, Dyn<'a, T>);
    fn write(self: Box<Self>, v: &[u32]) -> Dyn<'a, T>;
    fn finish(self: Box<Self>, v: &[u32]);
    fn check(self: Box<Self>) -> Dyn<'a, T>;
}
type Dyn<'a, T> = Box<dyn Cur<'a, T> + 'a>;
fn arr<T: El, const N: usize>(v: &[u32]) -> [T; N] {
    let mut i = v.iter();
    let a = [(); N].map(|_| T::make(*i.next().expect("as many values as elements")));
    assert!(i.next().is_none());
    a
}
macro_rules! cur { ($($n:literal: $(($l:literal, $r:literal))*;)*) => { $(
    impl<'a, T: El + 'a> Cur<'a, T> for Cursor<'a, T, $n> {
        fn len(&self) -> usize { $n }
        fn split(self: Box<Self>, k: usize) -> (Dyn<'a, T>, Dyn<'a, T>) {
            match k { $($l => { let (a, b) = (*self).split::<$l, $r>(); (Box::new(a), Box::new(b)) })* _ => panic!("split") }
        }
        fn write(self: Box<Self>, v: &[u32]) -> Dyn<'a, T> {
            match v.len() { $($l => Box::new((*self).write::<$l, $r>(arr(v))),)* _ => panic!("write") }
        }
        fn finish(self: Box<Self>, v: &[u32]) { (*self).finish(arr(v)) }
        fn check(self: Box<Self>) -> Dyn<'a, T> { Box::new((*self).assert_size::<$n>()) }
    } )* } }
include!(concat!(env!("OUT_DIR"), "/cur.rs"));

fn run<T: El + 'static, const N: usize>(prog: &[Value]) -> Value
where
    for<'a> Cursor<'a, T, N>: Cur<'a, T>,
{
    DROPS.with(|d| d.borrow_mut().clear());
    let mut mem: [MaybeUninit<T>; N] = [(); N].map(|_| MaybeUninit::uninit());
    let sz = std::mem::size_of::<T>();
    let p = mem.as_mut_ptr() as *mut u8;
    unsafe { std::ptr::write_bytes(p, 0xA5, sz * N) };
    let mut bad = 0;
    let mut left = vec![];
    {
        let mut cs: Vec<Option<Dyn<T>>> = vec![Some(Box::new(Cursor::new(&mut mem)))];
        let mut drop_it = |c: Dyn<T>| {
            if catch_unwind(AssertUnwindSafe(|| drop(c))).is_err() {
                bad += 1
            }
        };
        for o in prog {
            let k = o[1].as_u64().unwrap() as usize - 1;
            let c = cs.remove(k).unwrap();
            let v: Vec<u32> = o[3].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
            match o[0].as_str().unwrap() {
                "split" => {
                    let (a, b) = c.split(o[2].as_u64().unwrap() as usize);
                    cs.push(Some(a));
                    cs.push(Some(b));
                }
                "write" => cs.push(Some(c.write(&v))),
                "finish" => c.finish(&v),
                "assert" => cs.push(Some(c.check())),
                "drop" => drop_it(c),
                _ => panic!("op"),
            }
        }
        for c in &cs {
            left.push(c.as_ref().unwrap().len());
        }
        for c in cs {
            drop_it(c.unwrap());
        }
    }
    let bytes = unsafe { std::slice::from_raw_parts(p, sz * N) };
    let raw: Vec<u32> = if sz == 0 { vec![0; N] } else { bytes.chunks(sz).map(T::get).collect() };
    let drops: Vec<u32> = DROPS.with(|d| std::mem::take(&mut *d.borrow_mut()));
    let mut again = vec![];
    if bad == 0 && raw.iter().all(|v| *v != 0) | (sz == 0) && std::mem::needs_drop::<T>() {
        let done: [T; N] = mem.map(|x| unsafe { x.assume_init() });
        drop(done);
        let d: Vec<u32> = DROPS.with(|d| std::mem::take(&mut *d.borrow_mut()));
        again = if sz == 0 { vec![1; d.len()] } else { raw.iter().map(|v| d.iter().filter(|x| *x == v).count()).collect() };
    }
    json!({"type": T::NAME, "raw": raw, "left": left, "bad": bad, "drops": drops, "again": again})
}

/// Writes K of N elements and then stops as the mode says, with the cursor in the hands of
/// this function; the caller catches the panic and would go on with the array if there was none.
fn early(n: usize, k: usize, mode: &str) {
    fn go<const N: usize>(k: usize, mode: &str)
    where
        for<'a> Cursor<'a, u32, N>: Cur<'a, u32>,
    {
        let mut mem: [MaybeUninit<u32>; N] = [MaybeUninit::uninit(); N];
        let r = catch_unwind(AssertUnwindSafe(|| -> Result<(), ()> {
            let c: Dyn<u32> = Box::new(Cursor::new(&mut mem));
            let c = c.write(&(1..=k as u32).collect::<Vec<_>>());
            match mode {
                "panic" if c.len() > 0 => panic!("stopped"),
                "error" if c.len() > 0 => Err(()),
                _ => Ok(()),
            }
        }));
        println!("{}", match r { Ok(_) => "returned", Err(_) => "panicked" });
    }
    match n { 0 => go::<0>(k, mode), 1 => go::<1>(k, mode), 2 => go::<2>(k, mode), 3 => go::<3>(k, mode), _ => go::<4>(k, mode) }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    if a[1] == "early" {
        return early(a[2].parse().unwrap(), a[3].parse().unwrap(), &a[4]);
    }
    let inp = std::io::BufReader::new(std::fs::File::open(&a[1]).unwrap());
    let mut out = std::io::BufWriter::new(std::fs::File::create(&a[2]).unwrap());
    for l in inp.lines() {
        let mut j: Value = serde_json::from_str(&l.unwrap()).unwrap();
        let n = j["n"].as_u64().unwrap();
        let prog = j["prog"].as_array().unwrap().clone();
        j["runs"] = all(n as usize, &prog);
        serde_json::to_writer(&mut out, &j).unwrap();
        out.write_all(b"\n").unwrap();
    }
    out.flush().unwrap();
}
