//! Event tokens and string escaping shared by all recordings.
//!
//! A token is a list of strings; its first element is the kind.  All strings
//! are percent-escaped so that any text survives TLC's JSON reader unchanged.

pub type Tok = Vec<String>;

/// A long text that some tags start with, so that comparing them takes time;
/// `%~` in recordings.
#[macro_export]
macro_rules! slow {
    ($t:literal) => {
        concat!(include_str!("long.txt"), $t)
    };
}

pub fn enc(s: &str) -> String {
    let long = slow!("");
    if s.len() >= long.len() && s.contains(long) {
        return s.split(long).map(enc).collect::<Vec<_>>().join("%~");
    }
    let mut out = String::new();
    for b in s.bytes() {
        match b {
            b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' => out.push(b as char),
            b'_' | b'-' | b'.' | b':' | b' ' | b'+' | b'#' | b'$' | b'*' | b'?' | b'/' => {
                out.push(b as char)
            }
            _ => out.push_str(&format!("%{:02X}", b)),
        }
    }
    out
}

pub fn dec(s: &str) -> String {
    let b = s.as_bytes();
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' && i + 1 < b.len() && b[i + 1] == b'~' {
            out.extend_from_slice(slow!("").as_bytes());
            i += 2;
        } else if b[i] == b'%' && i + 2 < b.len() {
            let h = u8::from_str_radix(&s[i + 1..i + 3], 16).expect("bad escape");
            out.push(h);
            i += 3;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8(out).expect("bad utf8")
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
        .collect()
}

pub fn f32s(v: f32) -> String {
    if v.is_nan() {
        "NaN".into()
    } else {
        format!("{:?}", v)
    }
}

pub fn f64s(v: f64) -> String {
    if v.is_nan() {
        "NaN".into()
    } else {
        format!("{:?}", v)
    }
}

#[macro_export]
macro_rules! tok {
    ($($e:expr),* $(,)?) => { vec![$(String::from($e)),*] };
}

use std::collections::HashSet;
use std::sync::Mutex;
use std::sync::OnceLock;

/// Interned `&'static str`.
pub fn intern(s: &str) -> &'static str {
    static SET: OnceLock<Mutex<HashSet<&'static str>>> = OnceLock::new();
    let mut set = SET.get_or_init(Default::default).lock().unwrap();
    if let Some(x) = set.get(s) {
        return x;
    }
    let l: &'static str = Box::leak(s.to_owned().into_boxed_str());
    set.insert(l);
    l
}

pub fn intern_list(l: &[&'static str]) -> &'static [&'static str] {
    static SET: OnceLock<Mutex<HashSet<&'static [&'static str]>>> = OnceLock::new();
    let mut set = SET.get_or_init(Default::default).lock().unwrap();
    if let Some(x) = set.get(l) {
        return x;
    }
    let v: &'static [&'static str] = Box::leak(l.to_vec().into_boxed_slice());
    set.insert(v);
    v
}
