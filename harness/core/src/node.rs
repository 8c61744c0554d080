//! Values of the serde data model as data, and their serialization.
//!
//! `Node` replays an arbitrary value of the serde data model through any
//! `Serializer`.  In *raw* mode the parts whose serialization depends on the
//! environment (nested trait objects, injected failures, questions about human
//! readability) are written as markers, which gives the value's own event
//! stream, the input of the serialization machine of the specification.

use crate::tok::*;
use serde::ser::*;
use std::cell::Cell;

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    F32(f32),
    F64(f64),
    Char(char),
    Str(String),
    /// written with `collect_str`
    CStr(String),
    /// a string that was borrowed from the input
    BStr(String),
    Bytes(Vec<u8>),
    Unit,
    None,
    Some(Box<Node>),
    UStruct(&'static str),
    UVariant(&'static str, u32, &'static str),
    NStruct(&'static str, Box<Node>),
    NVariant(&'static str, u32, &'static str, Box<Node>),
    /// whether the length is announced, elements
    Seq(bool, Vec<Node>),
    Tuple(Vec<Node>),
    TStruct(&'static str, Vec<Node>),
    TVariant(&'static str, u32, &'static str, Vec<Node>),
    Map(bool, Vec<(Node, Node)>),
    Struct(&'static str, Vec<(&'static str, Node)>),
    SVariant(&'static str, u32, &'static str, Vec<(&'static str, Node)>),
    /// trait object: configuration, tag, value
    Obj(&'static str, &'static str, Box<Node>),
    /// fails to serialize
    Fail,
    /// writes the format's human readability
    Hr,
    /// writes the first text to human readable formats, the second to others
    HrStr(String, String),
    /// what a reader saw: (is_human_readable, value read)
    HrSeen(bool, bool),
    /// result of a request that ignores its input
    Ignored,
}

thread_local! {
    static RAW: Cell<bool> = const { Cell::new(false) };
}

pub fn raw_mode<R>(f: impl FnOnce() -> R) -> R {
    struct Reset(bool);
    impl Drop for Reset {
        fn drop(&mut self) {
            RAW.with(|r| r.set(self.0));
        }
    }
    let _reset = Reset(RAW.with(|r| r.replace(true)));
    f()
}

// long, of several lines, and of characters of all sizes
pub const INJECTED: &str = "injected-value-failure: {0} {} {:?} %s \"quoted\" \\ \u{0}\n\tsecond line\r\n\u{20ac}\u{1f600} and so on and on, and so on and on, and so on and on, and so on and on, \u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}x\u{1f600}x\u{1f600}x\u{1f600}x\u{1f600}x\u{1f600}x\u{1f600}x\u{1f600}x\u{1f600}x\u{1f600}x\u{1f600}x\u{1f600}x\u{1f600}x\u{1f600}x\u{1f600}x\u{1f600}x\u{1f600}x\u{1f600}x\u{1f600}x\u{1f600}x\u{1f600}x\u{1f600}x\u{1f600}x\u{1f600}x\u{1f600}x\u{1f600}x\u{1f600}x\u{1f600}x\u{1f600}x\u{1f600}x\u{1f600} at the end; \n";

thread_local! {
    /// failing implementations panic instead
    pub static BOOM: Cell<bool> = const { Cell::new(false) };
}

pub fn injected() -> &'static str {
    if BOOM.with(Cell::get) {
        panic!("{}", INJECTED);
    }
    INJECTED
}

impl Serialize for Node {
    fn serialize<S: Serializer>(&self, s: S) -> std::result::Result<S::Ok, S::Error> {
        match self {
            Node::Bool(v) => s.serialize_bool(*v),
            Node::I8(v) => s.serialize_i8(*v),
            Node::I16(v) => s.serialize_i16(*v),
            Node::I32(v) => s.serialize_i32(*v),
            Node::I64(v) => s.serialize_i64(*v),
            Node::I128(v) => s.serialize_i128(*v),
            Node::U8(v) => s.serialize_u8(*v),
            Node::U16(v) => s.serialize_u16(*v),
            Node::U32(v) => s.serialize_u32(*v),
            Node::U64(v) => s.serialize_u64(*v),
            Node::U128(v) => s.serialize_u128(*v),
            Node::F32(v) => s.serialize_f32(*v),
            Node::F64(v) => s.serialize_f64(*v),
            Node::Char(v) => s.serialize_char(*v),
            Node::Str(v) | Node::BStr(v) => s.serialize_str(v),
            Node::CStr(v) => s.collect_str(v),
            Node::Bytes(v) => s.serialize_bytes(v),
            Node::Unit => s.serialize_unit(),
            Node::None => s.serialize_none(),
            Node::Some(v) => s.serialize_some(&**v),
            Node::UStruct(n) => s.serialize_unit_struct(n),
            Node::UVariant(n, i, v) => s.serialize_unit_variant(n, *i, v),
            Node::NStruct(n, v) => s.serialize_newtype_struct(n, &**v),
            Node::NVariant(n, i, v, x) => s.serialize_newtype_variant(n, *i, v, &**x),
            Node::Seq(ann, v) => {
                let mut q = s.serialize_seq(if *ann { Some(v.len()) } else { None })?;
                for e in v {
                    q.serialize_element(e)?;
                }
                q.end()
            }
            Node::Tuple(v) => {
                let mut q = s.serialize_tuple(v.len())?;
                for e in v {
                    q.serialize_element(e)?;
                }
                q.end()
            }
            Node::TStruct(n, v) => {
                let mut q = s.serialize_tuple_struct(n, v.len())?;
                for e in v {
                    q.serialize_field(e)?;
                }
                q.end()
            }
            Node::TVariant(n, i, va, v) => {
                let mut q = s.serialize_tuple_variant(n, *i, va, v.len())?;
                for e in v {
                    q.serialize_field(e)?;
                }
                q.end()
            }
            Node::Map(ann, v) => {
                let mut q = s.serialize_map(if *ann { Some(v.len()) } else { None })?;
                for (i, (k, x)) in v.iter().enumerate() {
                    // both ways of writing an entry
                    if i % 2 == 0 {
                        q.serialize_entry(k, x)?;
                    } else {
                        q.serialize_key(k)?;
                        q.serialize_value(x)?;
                    }
                }
                q.end()
            }
            Node::Struct(n, v) => {
                let mut q = s.serialize_struct(n, v.len())?;
                for (k, x) in v {
                    q.serialize_field(k, x)?;
                }
                q.end()
            }
            Node::SVariant(n, i, va, v) => {
                let mut q = s.serialize_struct_variant(n, *i, va, v.len())?;
                for (k, x) in v {
                    q.serialize_field(k, x)?;
                }
                q.end()
            }
            Node::Obj(cfg, tag, node) => {
                if RAW.with(Cell::get) {
                    let mut q =
                        s.serialize_tuple_struct(intern(&format!("$obj|{}|{}", cfg, tag)), 1)?;
                    q.serialize_field(&**node)?;
                    q.end()
                } else {
                    crate::traits::ser_obj(cfg, tag, node, s)
                }
            }
            Node::Fail => {
                if RAW.with(Cell::get) {
                    s.serialize_unit_struct("$fail")
                } else {
                    Err(Error::custom(injected()))
                }
            }
            Node::Hr => {
                if RAW.with(Cell::get) {
                    s.serialize_unit_struct("$hr")
                } else {
                    let h = s.is_human_readable();
                    s.serialize_bool(h)
                }
            }
            Node::HrStr(a, b) => {
                if RAW.with(Cell::get) {
                    s.serialize_unit_struct(intern(&format!("$hrstr:{}:{}", enc(a), enc(b))))
                } else {
                    let x = if s.is_human_readable() { a } else { b };
                    s.serialize_str(x)
                }
            }
            Node::HrSeen(saw, wrote) => {
                s.serialize_unit_struct(intern(&format!("$hrseen:{}:{}", saw, wrote)))
            }
            Node::Ignored => s.serialize_unit_struct("$ignored"),
        }
    }
}

/// Builds a node from its own (raw) event stream.
pub struct Parser<'a> {
    toks: &'a [Tok],
    pos: usize,
}

impl<'a> Parser<'a> {
    pub fn parse(toks: &'a [Tok]) -> Node {
        let mut p = Parser { toks, pos: 0 };
        let n = p.node();
        assert_eq!(p.pos, toks.len(), "trailing tokens");
        n
    }
    fn next(&mut self) -> &'a Tok {
        let t = &self.toks[self.pos];
        self.pos += 1;
        t
    }
    fn peek(&self) -> &str {
        &self.toks[self.pos][0]
    }
    fn elems(&mut self) -> Vec<Node> {
        let mut v = Vec::new();
        loop {
            match self.next()[0].as_str() {
                "e" => v.push(self.node()),
                "end" => return v,
                x => panic!("element token {x}"),
            }
        }
    }
    fn fields(&mut self) -> Vec<(&'static str, Node)> {
        let mut v = Vec::new();
        loop {
            let t = self.next();
            match t[0].as_str() {
                "f" => {
                    let n = intern(&dec(&t[1]));
                    v.push((n, self.node()))
                }
                "end" => return v,
                x => panic!("field token {x}"),
            }
        }
    }
    pub fn node(&mut self) -> Node {
        let t = self.next();
        let s = |i: usize| intern(&dec(&t[i]));
        let n = |i: usize| t[i].parse::<u32>().unwrap();
        match t[0].as_str() {
            "bool" => Node::Bool(t[1] == "true"),
            "i8" => Node::I8(t[1].parse().unwrap()),
            "i16" => Node::I16(t[1].parse().unwrap()),
            "i32" => Node::I32(t[1].parse().unwrap()),
            "i64" => Node::I64(t[1].parse().unwrap()),
            "i128" => Node::I128(t[1].parse().unwrap()),
            "u8" => Node::U8(t[1].parse().unwrap()),
            "u16" => Node::U16(t[1].parse().unwrap()),
            "u32" => Node::U32(t[1].parse().unwrap()),
            "u64" => Node::U64(t[1].parse().unwrap()),
            "u128" => Node::U128(t[1].parse().unwrap()),
            "f32" => Node::F32(t[1].parse().unwrap()),
            "f64" => Node::F64(t[1].parse().unwrap()),
            "char" => Node::Char(dec(&t[1]).chars().next().unwrap()),
            "str" => Node::Str(dec(&t[1])),
            "cstr" => Node::CStr(dec(&t[1])),
            "bytes" => Node::Bytes(unhex(&t[1])),
            "unit" => Node::Unit,
            "none" => Node::None,
            "some" => Node::Some(Box::new(self.node())),
            "fail" => Node::Fail,
            "hr" => Node::Hr,
            "hrstr" => Node::HrStr(dec(&t[1]), dec(&t[2])),
            "obj" => {
                let (cfg, tag) = (s(1), s(2));
                let n = self.node();
                assert_eq!(self.next()[0], "endobj");
                Node::Obj(cfg, tag, Box::new(n))
            }
            "ustruct" => Node::UStruct(s(1)),
            "uvariant" => Node::UVariant(s(1), n(2), s(3)),
            "nstruct" => Node::NStruct(s(1), Box::new(self.node())),
            "nvariant" => Node::NVariant(s(1), n(2), s(3), Box::new(self.node())),
            "seq" => {
                let ann = t[1] != "?";
                Node::Seq(ann, self.elems())
            }
            "tuple" => Node::Tuple(self.elems()),
            "tstruct" => {
                let name = s(1);
                Node::TStruct(name, self.elems())
            }
            "tvariant" => Node::TVariant(s(1), n(2), s(3), self.elems()),
            "map" => {
                let ann = t[1] != "?";
                let mut v = Vec::new();
                while self.peek() != "end" {
                    assert_eq!(self.next()[0], "k");
                    let k = self.node();
                    assert_eq!(self.next()[0], "v");
                    let x = self.node();
                    v.push((k, x));
                }
                self.next();
                Node::Map(ann, v)
            }
            "struct" => Node::Struct(s(1), self.fields()),
            "svariant" => Node::SVariant(s(1), n(2), s(3), self.fields()),
            x => panic!("token {x}"),
        }
    }
}

/// Tree form used by the deserialization part of the specification.
pub fn tree(n: &Node) -> serde_json::Value {
    use serde_json::json;
    fn leaf(k: &str, v: String) -> serde_json::Value {
        json!({"k":k,"v":v,"c":[]})
    }
    fn b(k: &str, v: &str, c: Vec<serde_json::Value>) -> serde_json::Value {
        json!({"k":k,"v":enc(v),"c":c})
    }
    match n {
        Node::Bool(v) => leaf("bool", v.to_string()),
        Node::I8(v) => leaf("i8", v.to_string()),
        Node::I16(v) => leaf("i16", v.to_string()),
        Node::I32(v) => leaf("i32", v.to_string()),
        Node::I64(v) => leaf("i64", v.to_string()),
        Node::I128(v) => leaf("i128", v.to_string()),
        Node::U8(v) => leaf("u8", v.to_string()),
        Node::U16(v) => leaf("u16", v.to_string()),
        Node::U32(v) => leaf("u32", v.to_string()),
        Node::U64(v) => leaf("u64", v.to_string()),
        Node::U128(v) => leaf("u128", v.to_string()),
        Node::F32(v) => leaf("f32", f32s(*v)),
        Node::F64(v) => leaf("f64", f64s(*v)),
        Node::Char(v) => leaf("char", enc(&v.to_string())),
        Node::Str(v) | Node::CStr(v) => leaf("str", enc(v)),
        Node::BStr(v) => leaf("bstr", enc(v)),
        Node::Bytes(v) => leaf("bytes", hex(v)),
        Node::Unit => leaf("unit", String::new()),
        Node::None => leaf("none", String::new()),
        Node::Some(v) => b("some", "", vec![tree(v)]),
        Node::UStruct(n) => leaf("ustruct", enc(n)),
        Node::UVariant(_, _, v) => leaf("uvariant", enc(v)),
        Node::NStruct(n, v) => b("nstruct", n, vec![tree(v)]),
        Node::NVariant(_, _, v, x) => b("nvariant", v, vec![tree(x)]),
        Node::Seq(_, v) => b("seq", "", v.iter().map(tree).collect()),
        Node::Tuple(v) => b("tuple", "", v.iter().map(tree).collect()),
        Node::TStruct(n, v) => b("tstruct", n, v.iter().map(tree).collect()),
        Node::TVariant(_, _, va, v) => b("tvariant", va, v.iter().map(tree).collect()),
        Node::Map(_, v) => b(
            "map",
            "",
            v.iter()
                .flat_map(|(k, x)| {
                    // whether a key was borrowed is not observed
                    let k = match k {
                        Node::BStr(s) => Node::Str(s.clone()),
                        k => k.clone(),
                    };
                    [tree(&k), tree(x)]
                })
                .collect(),
        ),
        Node::Struct(n, v) => b("struct", n, v.iter().map(|(_, x)| tree(x)).collect()),
        Node::SVariant(_, _, va, v) => {
            b("svariant", va, v.iter().map(|(_, x)| tree(x)).collect())
        }
        Node::Obj(cfg, tag, x) => json!({"k":"obj","v":format!("{}|{}",enc(cfg),enc(tag)),"c":[tree(x)]}),
        Node::Fail => leaf("fail", String::new()),
        Node::Hr => leaf("hr", String::new()),
        Node::HrStr(a, b) => leaf("hrstr", format!("{}|{}", enc(a), enc(b))),
        Node::HrSeen(a, bb) => json!({"k":"hrseen","v":a.to_string(),"c":[leaf("bool", bb.to_string())]}),
        Node::Ignored => leaf("ignored", String::new()),
    }
}
