//! Formats as functions from a value to its encoding and back.

use serde::de::DeserializeOwned;
use serde::Serialize;

pub const NAMES: &[&str] = &["json", "jsonv", "cbor", "ron", "postcard", "bincode"];

/// Writes `v`, reads a `T` back with `read`; an error carries its text.
pub enum Enc {
    Text(String),
    Value(serde_json::Value),
    Bytes(Vec<u8>),
}

pub fn write<T: ?Sized + Serialize>(fmt: &str, v: &T) -> Result<Enc, String> {
    match fmt {
        "json" => serde_json::to_string(v).map(Enc::Text).map_err(|e| e.to_string()),
        "jsonv" => serde_json::to_value(v).map(Enc::Value).map_err(|e| e.to_string()),
        "cbor" => {
            let mut b = Vec::new();
            ciborium::into_writer(v, &mut b).map_err(|e| e.to_string())?;
            Ok(Enc::Bytes(b))
        }
        "ron" => ron::to_string(v).map(Enc::Text).map_err(|e| e.to_string()),
        "postcard" => postcard::to_allocvec(v).map(Enc::Bytes).map_err(|e| e.to_string()),
        "bincode" => bincode::serialize(v).map(Enc::Bytes).map_err(|e| e.to_string()),
        f => panic!("format {f}"),
    }
}

/// Reads a value back; all input must be consumed.
pub fn read<T: DeserializeOwned>(fmt: &str, e: &Enc) -> Result<T, String> {
    match (fmt, e) {
        ("json", Enc::Text(t)) => serde_json::from_str(t).map_err(|e| e.to_string()),
        ("jsonv", Enc::Value(x)) => serde_json::from_value(x.clone()).map_err(|e| e.to_string()),
        ("cbor", Enc::Bytes(b)) => {
            let mut r = &b[..];
            let v = ciborium::from_reader(&mut r).map_err(|e| e.to_string())?;
            over(r)?;
            Ok(v)
        }
        ("ron", Enc::Text(t)) => ron::from_str(t).map_err(|e| e.to_string()),
        ("postcard", Enc::Bytes(b)) => {
            let (v, rest) = postcard::take_from_bytes(b).map_err(|e| e.to_string())?;
            over(rest)?;
            Ok(v)
        }
        ("bincode", Enc::Bytes(b)) => {
            let mut r = &b[..];
            // bincode allocates what a length announces
            use bincode::Options;
            let v = bincode::DefaultOptions::new()
                .with_fixint_encoding()
                .allow_trailing_bytes()
                .with_limit(1 << 20)
                .deserialize_from(&mut r)
                .map_err(|e| e.to_string())?;
            over(r)?;
            Ok(v)
        }
        _ => panic!("format {fmt}"),
    }
}

fn over(rest: &[u8]) -> Result<(), String> {
    if rest.is_empty() {
        Ok(())
    } else {
        Err("input left over".into())
    }
}
