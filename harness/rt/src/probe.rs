//! Which of the standard comparison traits a type has, and what they say of two values.
//! Absent traits give null (chosen by auto-referencing, so the types need no bounds).
use serde_json::{json, Value};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

pub struct W<'a, T>(pub &'a T);

fn o(x: Ordering) -> Value {
    json!(x as i8)
}

pub trait PartialY<T> {
    fn p_partial(&self, other: &W<'_, T>) -> Value;
}
impl<T: PartialOrd> PartialY<T> for W<'_, T> {
    fn p_partial(&self, other: &W<'_, T>) -> Value {
        let (a, b) = (self.0, other.0);
        json!({"eq": a == b, "ne": a != b, "pc": a.partial_cmp(b).map(o).unwrap_or(json!(2)), "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b})
    }
}
pub trait PartialN<T> {
    fn p_partial(&self, other: &W<'_, T>) -> Value;
}
impl<T> PartialN<T> for &W<'_, T> {
    fn p_partial(&self, _: &W<'_, T>) -> Value {
        json!({"none": true})
    }
}
pub trait TotalY<T> {
    fn p_total(&self, other: &W<'_, T>) -> Value;
}
impl<T: Ord + Hash> TotalY<T> for W<'_, T> {
    fn p_total(&self, other: &W<'_, T>) -> Value {
        let h = |x: &T| {
            let mut s = DefaultHasher::new();
            x.hash(&mut s);
            s.finish()
        };
        let (a, b) = (self.0, other.0);
        json!({"cmp": o(a.cmp(b)), "hash": h(a) == h(b), "max": std::ptr::eq(a.max(b), b)})
    }
}
pub trait TotalN<T> {
    fn p_total(&self, other: &W<'_, T>) -> Value;
}
impl<T> TotalN<T> for &W<'_, T> {
    fn p_total(&self, _: &W<'_, T>) -> Value {
        json!({"none": true})
    }
}
pub trait DefaultY<T> {
    fn p_default(&self) -> Option<T>;
}
impl<T: Default> DefaultY<T> for W<'_, T> {
    fn p_default(&self) -> Option<T> {
        Some(T::default())
    }
}
pub trait DefaultN<T> {
    fn p_default(&self) -> Option<T>;
}
impl<T> DefaultN<T> for &W<'_, T> {
    fn p_default(&self) -> Option<T> {
        None
    }
}
#[macro_export]
macro_rules! probe {
    ($a:expr, $b:expr) => {{
        #[allow(unused_imports)]
        use $crate::probe::*;
        let (a, b) = (W(&$a), W(&$b));
        $crate::serde_json::json!({"p": (&a).p_partial(&b), "t": (&a).p_total(&b)})
    }};
}
/// clone and serde round trip
pub fn copies<T: Clone + serde::Serialize + serde::de::DeserializeOwned + crate::Vw>(a: &T) -> Value {
    let mut c = crate::Cx::new(false, 4000);
    let v = a.clone().vw(&mut c, 64);
    let s = match serde_json::to_value(a) {
        Err(e) => json!(["serialize", e.to_string()]),
        Ok(x) => match serde_json::from_value::<T>(x) {
            Err(e) => json!(["deserialize", e.to_string()]),
            Ok(y) => y.vw(&mut crate::Cx::new(false, 4000), 64),
        },
    };
    json!({"clone": v, "serde": s})
}
