//! Lossless JSON for f64 (NaN, infinities and signed zeros included): written as text.
use serde::{Deserialize, Deserializer, Serializer};

pub fn show(v: f64) -> String {
    format!("{:?}", v)
}
fn read<E: serde::de::Error>(s: &str) -> Result<f64, E> {
    s.parse::<f64>().map_err(|e| E::custom(format!("{}: {}", s, e)))
}

pub mod one {
    use super::*;
    pub fn serialize<S: Serializer>(v: &f64, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&show(*v))
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<f64, D::Error> {
        read(&String::deserialize(d)?)
    }
}

pub mod many {
    use super::*;
    pub fn serialize<S: Serializer>(v: &[f64], s: S) -> Result<S::Ok, S::Error> {
        s.collect_seq(v.iter().map(|x| show(*x)))
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<f64>, D::Error> {
        Vec::<String>::deserialize(d)?.iter().map(|s| read(s)).collect()
    }
}

/// Bitwise equality, all NaN being equal
pub fn same(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}
/// Same value (0.0 == -0.0), all NaN being equal
pub fn same_val(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}
pub fn same_vec(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same_val(*x, *y))
}
