use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::fmt;

/// Byte string that prints and serializes as hex.
#[derive(Clone, PartialEq, Eq, Hash, Default)]
pub struct Bytes(pub Vec<u8>);

impl std::ops::Deref for Bytes {
    type Target = Vec<u8>;
    fn deref(&self) -> &Vec<u8> {
        &self.0
    }
}

impl fmt::Debug for Bytes {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "h\"{}\"", hex(&self.0))
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{x:02x}"));
    }
    s
}

pub fn unhex(s: &str) -> Option<Vec<u8>> {
    if s.len() % 2 != 0 {
        return None;
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(s.get(2 * i..2 * i + 2)?, 16).ok()).collect()
}

impl Serialize for Bytes {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        // long runs of one byte are written compactly
        if self.0.len() > 4096 && self.0.iter().all(|x| *x == self.0[0]) {
            return s.serialize_str(&format!("rep:{}:{:02x}", self.0.len(), self.0[0]));
        }
        s.serialize_str(&hex(&self.0))
    }
}

impl<'de> Deserialize<'de> for Bytes {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        if let Some(r) = s.strip_prefix("rep:") {
            let (n, b) = r.split_once(':').ok_or_else(|| serde::de::Error::custom("rep"))?;
            let n: usize = n.parse().map_err(serde::de::Error::custom)?;
            let b = u8::from_str_radix(b, 16).map_err(serde::de::Error::custom)?;
            return Ok(Bytes(vec![b; n]));
        }
        unhex(&s).map(Bytes).ok_or_else(|| serde::de::Error::custom("bad hex"))
    }
}

/// splitmix64, used only to expand a generated seed into data (a pure function of the case).
pub fn mix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn fnv(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

/// first difference between two byte strings, for messages
pub fn diff(expected: &[u8], got: &[u8]) -> String {
    let n = expected.iter().zip(got).take_while(|(a, b)| a == b).count();
    let from = n.saturating_sub(60);
    let cut = |b: &[u8]| String::from_utf8_lossy(&b[from.min(b.len())..(n + 160).min(b.len())]).into_owned();
    format!(
        "first difference at byte {} (expected {} bytes, got {}): expected ...{:?}... got ...{:?}...",
        n,
        expected.len(),
        got.len(),
        cut(expected),
        cut(got)
    )
}
