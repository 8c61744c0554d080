//! Requests as data: a `Schema` asks any `Deserializer` for a value the way a
//! hand written or derived `Deserialize` implementation would, and records the
//! answer as a `Node`.
//!
//! In *raw* mode a leaf request accepts whatever the deserializer offers and
//! records its kind.  In *typed* mode it converts to the requested type like
//! the implementations in serde itself.

use crate::node::Node;
use crate::tok::*;
use serde::de::*;
use serde_json::Value as J;
use std::cell::{Cell, RefCell};
use std::fmt;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Var {
    Unit,
    Newtype(Schema),
    Tuple(Vec<Schema>),
    Struct(Vec<(&'static str, Schema)>),
}

#[derive(Clone, Debug)]
pub enum Schema {
    /// bool, integers, floats, char, str, string, bytes, bytebuf, ident
    Leaf(&'static str),
    /// `&str` and `&[u8]`: accepts only data borrowed from the input
    Strb,
    Bytesb,
    Unit,
    UStruct(&'static str),
    Option(Box<Schema>),
    NStruct(&'static str, Box<Schema>),
    Seq(Vec<Schema>),
    /// reads at most n elements, never asks for the end
    Take(usize, Box<Schema>),
    Tuple(Vec<Schema>),
    TStruct(&'static str, Vec<Schema>),
    Map(Vec<(Schema, Schema)>),
    /// reads at most n entries, never asks for the end
    MTake(usize, Box<(Schema, Schema)>),
    Struct(&'static str, bool, Vec<(&'static str, Schema)>),
    Enum(&'static str, Vec<(&'static str, Var)>),
    Any,
    Ignored,
    Obj(&'static str, Box<Schema>),
    Fail,
    FailAfter(Box<Schema>),
    Hr,
}

thread_local! {
    static TYPED: Cell<bool> = const { Cell::new(false) };
    static TOP: RefCell<Vec<Rc<Schema>>> = const { RefCell::new(Vec::new()) };
}

pub fn typed_mode<R>(on: bool, f: impl FnOnce() -> R) -> R {
    struct Reset(bool);
    impl Drop for Reset {
        fn drop(&mut self) {
            TYPED.with(|r| r.set(self.0));
        }
    }
    let _reset = Reset(TYPED.with(|r| r.replace(on)));
    f()
}

fn typed() -> bool {
    TYPED.with(Cell::get)
}

/// Runs `f` with `s` as the schema of the implementations' own values.
pub fn with_schema<R>(s: &Schema, f: impl FnOnce() -> R) -> R {
    struct Pop;
    impl Drop for Pop {
        fn drop(&mut self) {
            TOP.with(|t| t.borrow_mut().pop());
        }
    }
    TOP.with(|t| t.borrow_mut().push(Rc::new(s.clone())));
    let _pop = Pop;
    f()
}

/// What an implementation's `Deserialize` does.
pub fn read_top<'de, D: Deserializer<'de>>(d: D) -> Result<Node, D::Error> {
    let s = TOP.with(|t| t.borrow().last().cloned());
    match s {
        Some(s) => (&*s).deserialize(d),
        None => Err(Error::custom("no schema")),
    }
}

impl Schema {
    pub fn parse(j: &J) -> Schema {
        let k = j["k"].as_str().unwrap();
        let v = intern(&dec(j["v"].as_str().unwrap()));
        let empty = Vec::new();
        let c = j["c"].as_array().unwrap_or(&empty);
        let names: Vec<&'static str> = j["f"]
            .as_array()
            .unwrap_or(&empty)
            .iter()
            .map(|x| intern(&dec(x.as_str().unwrap())))
            .collect();
        let all = || c.iter().map(Schema::parse).collect::<Vec<_>>();
        let one = || Box::new(Schema::parse(&c[0]));
        let named = || names.iter().copied().zip(all()).collect::<Vec<_>>();
        match k {
            "strb" => Schema::Strb,
            "bytesb" => Schema::Bytesb,
            "unit" => Schema::Unit,
            "ustruct" => Schema::UStruct(v),
            "option" => Schema::Option(one()),
            "nstruct" => Schema::NStruct(v, one()),
            "seq" => Schema::Seq(all()),
            "take" => Schema::Take(v.parse().unwrap(), one()),
            "tuple" => Schema::Tuple(all()),
            "tstruct" => Schema::TStruct(v, all()),
            "map" => Schema::Map(pairs(all())),
            "mtake" => Schema::MTake(v.parse().unwrap(), Box::new(pairs(all()).remove(0))),
            "struct" => Schema::Struct(v, false, named()),
            "structdeny" => Schema::Struct(v, true, named()),
            "enum" => Schema::Enum(
                v,
                names
                    .iter()
                    .copied()
                    .zip(c.iter().map(|x| {
                        let empty = Vec::new();
                        let cc = x["c"].as_array().unwrap_or(&empty);
                        let s = || cc.iter().map(Schema::parse).collect::<Vec<_>>();
                        match x["k"].as_str().unwrap() {
                            "unit" => Var::Unit,
                            "newtype" => Var::Newtype(s().remove(0)),
                            "tuple" => Var::Tuple(s()),
                            "struct" => Var::Struct(
                                x["f"]
                                    .as_array()
                                    .unwrap_or(&empty)
                                    .iter()
                                    .map(|y| intern(&dec(y.as_str().unwrap())))
                                    .zip(s())
                                    .collect(),
                            ),
                            k => panic!("variant {k}"),
                        }
                    }))
                    .collect(),
            ),
            "any" => Schema::Any,
            "ignored" => Schema::Ignored,
            "obj" => Schema::Obj(v, one()),
            "fail" => Schema::Fail,
            "failafter" => Schema::FailAfter(one()),
            "hr" => Schema::Hr,
            k => Schema::Leaf(match k {
                "bool" | "i8" | "i16" | "i32" | "i64" | "i128" | "u8" | "u16" | "u32" | "u64"
                | "u128" | "f32" | "f64" | "char" | "str" | "string" | "bytes" | "bytebuf"
                | "ident" => intern(k),
                _ => panic!("schema {k}"),
            }),
        }
    }

    /// The schema a type with this value would have.
    pub fn of(n: &Node) -> Schema {
        let all = |v: &[Node]| v.iter().map(Schema::of).collect::<Vec<_>>();
        let named = |v: &[(&'static str, Node)]| {
            v.iter().map(|(k, x)| (*k, Schema::of(x))).collect::<Vec<_>>()
        };
        let filler = |i: u32| -> Vec<(&'static str, Var)> {
            (0..i).map(|j| (intern(&format!("$v{}", j)), Var::Unit)).collect()
        };
        match n {
            Node::Bool(_) => Schema::Leaf("bool"),
            Node::I8(_) => Schema::Leaf("i8"),
            Node::I16(_) => Schema::Leaf("i16"),
            Node::I32(_) => Schema::Leaf("i32"),
            Node::I64(_) => Schema::Leaf("i64"),
            Node::I128(_) => Schema::Leaf("i128"),
            Node::U8(_) => Schema::Leaf("u8"),
            Node::U16(_) => Schema::Leaf("u16"),
            Node::U32(_) => Schema::Leaf("u32"),
            Node::U64(_) => Schema::Leaf("u64"),
            Node::U128(_) => Schema::Leaf("u128"),
            Node::F32(_) => Schema::Leaf("f32"),
            Node::F64(_) => Schema::Leaf("f64"),
            Node::Char(_) => Schema::Leaf("char"),
            Node::Str(_) | Node::CStr(_) | Node::BStr(_) => Schema::Leaf("string"),
            Node::Bytes(_) => Schema::Leaf("bytebuf"),
            Node::Unit => Schema::Unit,
            Node::None => Schema::Option(Box::new(Schema::Unit)),
            Node::Some(x) => Schema::Option(Box::new(Schema::of(x))),
            Node::UStruct(s) => Schema::UStruct(s),
            Node::NStruct(s, x) => Schema::NStruct(s, Box::new(Schema::of(x))),
            Node::Seq(_, v) => Schema::Seq(all(v)),
            Node::Tuple(v) => Schema::Tuple(all(v)),
            Node::TStruct(s, v) => Schema::TStruct(s, all(v)),
            Node::Map(_, v) => {
                Schema::Map(v.iter().map(|(k, x)| (Schema::of(k), Schema::of(x))).collect())
            }
            Node::Struct(s, v) => Schema::Struct(s, false, named(v)),
            Node::UVariant(n, i, v) => {
                let mut l = filler(*i);
                l.push((v, Var::Unit));
                Schema::Enum(n, l)
            }
            Node::NVariant(n, i, v, x) => {
                let mut l = filler(*i);
                l.push((v, Var::Newtype(Schema::of(x))));
                Schema::Enum(n, l)
            }
            Node::TVariant(n, i, v, x) => {
                let mut l = filler(*i);
                l.push((v, Var::Tuple(all(x))));
                Schema::Enum(n, l)
            }
            Node::SVariant(n, i, v, x) => {
                let mut l = filler(*i);
                l.push((v, Var::Struct(named(x))));
                Schema::Enum(n, l)
            }
            Node::Obj(cfg, _, x) => Schema::Obj(cfg, Box::new(Schema::of(x))),
            Node::Fail => Schema::Fail,
            Node::Hr | Node::HrSeen(..) => Schema::Hr,
            Node::HrStr(..) => Schema::Any,
            Node::Ignored => Schema::Ignored,
        }
    }
}

fn pairs(v: Vec<Schema>) -> Vec<(Schema, Schema)> {
    let mut out = Vec::new();
    let mut it = v.into_iter();
    while let Some(k) = it.next() {
        out.push((k, it.next().expect("value schema")));
    }
    out
}

// ---------------------------------------------------------------------------
// visitors

/// Accepts everything, like a self-describing value type.
struct AnyV;

macro_rules! visits {
    ($($m:ident $t:ty, $v:ident;)*) => {$(
        fn $m<E: Error>(self, v: $t) -> Result<Node, E> { Ok(Node::$v(v.into())) }
    )*}
}

impl<'de> Visitor<'de> for AnyV {
    type Value = Node;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("anything")
    }
    visits! {
        visit_bool bool, Bool;
        visit_i8 i8, I8;
        visit_i16 i16, I16;
        visit_i32 i32, I32;
        visit_i64 i64, I64;
        visit_i128 i128, I128;
        visit_u8 u8, U8;
        visit_u16 u16, U16;
        visit_u32 u32, U32;
        visit_u64 u64, U64;
        visit_u128 u128, U128;
        visit_f32 f32, F32;
        visit_f64 f64, F64;
        visit_char char, Char;
        visit_str &str, Str;
        visit_string String, Str;
        visit_borrowed_str &'de str, BStr;
        visit_bytes &[u8], Bytes;
        visit_byte_buf Vec<u8>, Bytes;
    }
    fn visit_borrowed_bytes<E: Error>(self, v: &'de [u8]) -> Result<Node, E> {
        Ok(Node::Bytes(v.to_vec()))
    }
    fn visit_unit<E: Error>(self) -> Result<Node, E> {
        Ok(Node::Unit)
    }
    fn visit_none<E: Error>(self) -> Result<Node, E> {
        Ok(Node::None)
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Node, D::Error> {
        Ok(Node::Some(Box::new(d.deserialize_any(AnyV)?)))
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Node, D::Error> {
        Ok(Node::NStruct("", Box::new(d.deserialize_any(AnyV)?)))
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Node, A::Error> {
        let mut v = Vec::new();
        while let Some(x) = a.next_element_seed(&Schema::Any)? {
            v.push(x);
        }
        Ok(Node::Seq(true, v))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Node, A::Error> {
        let mut v = Vec::new();
        while let Some(k) = a.next_key_seed(&Schema::Any)? {
            v.push((k, a.next_value_seed(&Schema::Any)?));
        }
        Ok(Node::Map(true, v))
    }
}

/// Converts to the requested type like serde's own implementations.
struct LeafV(&'static str);

impl LeafV {
    fn int<E: Error>(&self, v: i128, un: Unexpected) -> Result<Node, E> {
        macro_rules! go {
            ($($k:literal $t:ty, $n:ident;)*) => {
                match self.0 {
                    $($k => <$t>::try_from(v).map(Node::$n)
                        .map_err(|_| E::invalid_value(un, self)),)*
                    "f32" => Ok(Node::F32(v as f32)),
                    "f64" => Ok(Node::F64(v as f64)),
                    _ => Err(E::invalid_type(un, self)),
                }
            }
        }
        go! {
            "i8" i8, I8; "i16" i16, I16; "i32" i32, I32; "i64" i64, I64; "i128" i128, I128;
            "u8" u8, U8; "u16" u16, U16; "u32" u32, U32; "u64" u64, U64; "u128" u128, U128;
        }
    }
    fn text<E: Error>(&self, v: &str) -> Result<Node, E> {
        match self.0 {
            "str" | "string" | "ident" => Ok(Node::Str(v.to_owned())),
            "char" => {
                let mut it = v.chars();
                match (it.next(), it.next()) {
                    (Some(c), None) => Ok(Node::Char(c)),
                    _ => Err(E::invalid_value(Unexpected::Str(v), self)),
                }
            }
            "bytes" | "bytebuf" => Ok(Node::Bytes(v.as_bytes().to_vec())),
            _ => Err(E::invalid_type(Unexpected::Str(v), self)),
        }
    }
}

impl<'de> Visitor<'de> for LeafV {
    type Value = Node;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.0)
    }
    fn visit_bool<E: Error>(self, v: bool) -> Result<Node, E> {
        if self.0 == "bool" {
            Ok(Node::Bool(v))
        } else {
            Err(E::invalid_type(Unexpected::Bool(v), &self))
        }
    }
    fn visit_i64<E: Error>(self, v: i64) -> Result<Node, E> {
        self.int(v as i128, Unexpected::Signed(v))
    }
    fn visit_u64<E: Error>(self, v: u64) -> Result<Node, E> {
        self.int(v as i128, Unexpected::Unsigned(v))
    }
    fn visit_i128<E: Error>(self, v: i128) -> Result<Node, E> {
        self.int(v, Unexpected::Other("i128"))
    }
    fn visit_u128<E: Error>(self, v: u128) -> Result<Node, E> {
        if self.0 == "u128" {
            return Ok(Node::U128(v));
        }
        match i128::try_from(v) {
            Ok(v) => self.int(v, Unexpected::Other("u128")),
            Err(_) => Err(E::invalid_value(Unexpected::Other("u128"), &self)),
        }
    }
    fn visit_f32<E: Error>(self, v: f32) -> Result<Node, E> {
        match self.0 {
            "f32" => Ok(Node::F32(v)),
            "f64" => Ok(Node::F64(v as f64)),
            _ => Err(E::invalid_type(Unexpected::Float(v as f64), &self)),
        }
    }
    fn visit_f64<E: Error>(self, v: f64) -> Result<Node, E> {
        match self.0 {
            "f32" => Ok(Node::F32(v as f32)),
            "f64" => Ok(Node::F64(v)),
            _ => Err(E::invalid_type(Unexpected::Float(v), &self)),
        }
    }
    fn visit_char<E: Error>(self, v: char) -> Result<Node, E> {
        if self.0 == "char" {
            Ok(Node::Char(v))
        } else {
            self.text(v.encode_utf8(&mut [0; 4]))
        }
    }
    fn visit_str<E: Error>(self, v: &str) -> Result<Node, E> {
        self.text(v)
    }
    fn visit_bytes<E: Error>(self, v: &[u8]) -> Result<Node, E> {
        match self.0 {
            "bytes" | "bytebuf" => Ok(Node::Bytes(v.to_vec())),
            "str" | "string" | "ident" => match std::str::from_utf8(v) {
                Ok(s) => Ok(Node::Str(s.to_owned())),
                Err(_) => Err(E::invalid_value(Unexpected::Bytes(v), &self)),
            },
            _ => Err(E::invalid_type(Unexpected::Bytes(v), &self)),
        }
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Node, A::Error> {
        if !matches!(self.0, "bytes" | "bytebuf") {
            return Err(A::Error::invalid_type(Unexpected::Seq, &self));
        }
        let mut v = Vec::new();
        while let Some(x) = a.next_element::<u8>()? {
            v.push(x);
        }
        Ok(Node::Bytes(v))
    }
}

struct BorrowV(bool);
impl<'de> Visitor<'de> for BorrowV {
    type Value = Node;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("borrowed data")
    }
    fn visit_borrowed_str<E: Error>(self, v: &'de str) -> Result<Node, E> {
        if self.0 {
            Ok(Node::BStr(v.to_owned()))
        } else {
            Ok(Node::Bytes(v.as_bytes().to_vec()))
        }
    }
    fn visit_borrowed_bytes<E: Error>(self, v: &'de [u8]) -> Result<Node, E> {
        if self.0 {
            Err(E::invalid_type(Unexpected::Bytes(v), &self))
        } else {
            Ok(Node::Bytes(v.to_vec()))
        }
    }
}

struct UnitV(Option<&'static str>);
impl<'de> Visitor<'de> for UnitV {
    type Value = Node;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("unit")
    }
    fn visit_unit<E: Error>(self) -> Result<Node, E> {
        Ok(self.0.map_or(Node::Unit, Node::UStruct))
    }
}

struct OptionV<'a>(&'a Schema);
impl<'de, 'a> Visitor<'de> for OptionV<'a> {
    type Value = Node;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("option")
    }
    fn visit_none<E: Error>(self) -> Result<Node, E> {
        Ok(Node::None)
    }
    fn visit_unit<E: Error>(self) -> Result<Node, E> {
        Ok(Node::None)
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Node, D::Error> {
        Ok(Node::Some(Box::new(self.0.deserialize(d)?)))
    }
}

struct NewtypeV<'a>(&'static str, &'a Schema);
impl<'de, 'a> Visitor<'de> for NewtypeV<'a> {
    type Value = Node;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "newtype struct {}", self.0)
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Node, D::Error> {
        Ok(Node::NStruct(self.0, Box::new(self.1.deserialize(d)?)))
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Node, A::Error> {
        match a.next_element_seed(self.1)? {
            Some(x) => Ok(Node::NStruct(self.0, Box::new(x))),
            None => Err(A::Error::invalid_length(0, &self)),
        }
    }
}

fn nth(v: &[Schema], i: usize) -> &Schema {
    v.get(i).or(v.last()).unwrap_or(&Schema::Fail)
}

struct SeqV<'a>(&'a [Schema]);
impl<'de, 'a> Visitor<'de> for SeqV<'a> {
    type Value = Node;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("sequence")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Node, A::Error> {
        let mut v = Vec::new();
        while let Some(x) = a.next_element_seed(nth(self.0, v.len()))? {
            v.push(x);
        }
        Ok(Node::Seq(true, v))
    }
}

struct TakeV<'a>(usize, &'a Schema);
impl<'de, 'a> Visitor<'de> for TakeV<'a> {
    type Value = Node;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("sequence")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Node, A::Error> {
        let mut v = Vec::new();
        while v.len() < self.0 {
            match a.next_element_seed(self.1)? {
                Some(x) => v.push(x),
                None => break,
            }
        }
        Ok(Node::Seq(true, v))
    }
}

fn fixed<'de, A: SeqAccess<'de>>(
    mut a: A,
    s: &[Schema],
    exp: &dyn Expected,
) -> Result<Vec<Node>, A::Error> {
    let mut v = Vec::new();
    for x in s {
        match a.next_element_seed(x)? {
            Some(x) => v.push(x),
            None => return Err(A::Error::invalid_length(v.len(), exp)),
        }
    }
    Ok(v)
}

struct TupleV<'a>(&'a [Schema]);
impl<'de, 'a> Visitor<'de> for TupleV<'a> {
    type Value = Vec<Node>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "tuple of size {}", self.0.len())
    }
    fn visit_seq<A: SeqAccess<'de>>(self, a: A) -> Result<Vec<Node>, A::Error> {
        let s = self.0;
        fixed(a, s, &self)
    }
}

struct MapV<'a>(&'a [(Schema, Schema)]);
impl<'de, 'a> Visitor<'de> for MapV<'a> {
    type Value = Node;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("map")
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Node, A::Error> {
        let fail = (Schema::Fail, Schema::Fail);
        let mut v = Vec::new();
        loop {
            let s = self.0.get(v.len()).or(self.0.last()).unwrap_or(&fail);
            match a.next_key_seed(&s.0)? {
                Some(k) => v.push((k, a.next_value_seed(&s.1)?)),
                None => return Ok(Node::Map(true, v)),
            }
        }
    }
}

struct MTakeV<'a>(usize, &'a (Schema, Schema));
impl<'de, 'a> Visitor<'de> for MTakeV<'a> {
    type Value = Node;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("map")
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Node, A::Error> {
        let mut v = Vec::new();
        while v.len() < self.0 {
            match a.next_key_seed(&self.1 .0)? {
                Some(k) => v.push((k, a.next_value_seed(&self.1 .1)?)),
                None => break,
            }
        }
        Ok(Node::Map(true, v))
    }
}

enum Which {
    Known(usize),
    Unknown,
}

/// Names a field or variant by text, bytes or position.
struct NameSeed<'a> {
    names: &'a [&'static str],
    deny: bool,
    variant: bool,
}
impl<'de, 'a> DeserializeSeed<'de> for NameSeed<'a> {
    type Value = Which;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Which, D::Error> {
        d.deserialize_identifier(self)
    }
}
impl<'a> NameSeed<'a> {
    fn find<E: Error>(&self, v: &str) -> Result<Which, E> {
        match self.names.iter().position(|n| *n == v) {
            Some(i) => Ok(Which::Known(i)),
            None if self.variant => Err(E::unknown_variant(v, intern_list(self.names))),
            None if self.deny => Err(E::unknown_field(v, intern_list(self.names))),
            None => Ok(Which::Unknown),
        }
    }
}
impl<'de, 'a> Visitor<'de> for NameSeed<'a> {
    type Value = Which;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(if self.variant { "variant identifier" } else { "field identifier" })
    }
    fn visit_u64<E: Error>(self, v: u64) -> Result<Which, E> {
        if (v as usize) < self.names.len() {
            Ok(Which::Known(v as usize))
        } else if self.variant || self.deny {
            Err(E::invalid_value(Unexpected::Unsigned(v), &self))
        } else {
            Ok(Which::Unknown)
        }
    }
    fn visit_str<E: Error>(self, v: &str) -> Result<Which, E> {
        self.find(v)
    }
    fn visit_bytes<E: Error>(self, v: &[u8]) -> Result<Which, E> {
        match std::str::from_utf8(v) {
            Ok(s) => self.find(s),
            Err(_) => Err(E::invalid_value(Unexpected::Bytes(v), &self)),
        }
    }
}

struct StructV<'a> {
    name: &'static str,
    deny: bool,
    fields: &'a [(&'static str, Schema)],
}
impl<'de, 'a> Visitor<'de> for StructV<'a> {
    type Value = Vec<(&'static str, Node)>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "struct {}", self.name)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Self::Value, A::Error> {
        let mut v = Vec::new();
        for (n, s) in self.fields {
            match a.next_element_seed(s)? {
                Some(x) => v.push((*n, x)),
                None => return Err(A::Error::invalid_length(v.len(), &self)),
            }
        }
        Ok(v)
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Self::Value, A::Error> {
        let names: Vec<&'static str> = self.fields.iter().map(|x| x.0).collect();
        let mut got: Vec<Option<Node>> = names.iter().map(|_| None).collect();
        while let Some(w) = a.next_key_seed(NameSeed {
            names: &names,
            deny: self.deny,
            variant: false,
        })? {
            match w {
                Which::Known(i) => {
                    if got[i].is_some() {
                        return Err(A::Error::duplicate_field(names[i]));
                    }
                    got[i] = Some(a.next_value_seed(&self.fields[i].1)?);
                }
                Which::Unknown => {
                    a.next_value::<IgnoredAny>()?;
                }
            }
        }
        let mut v = Vec::new();
        for (i, x) in got.into_iter().enumerate() {
            match (x, &self.fields[i].1) {
                (Some(x), _) => v.push((names[i], x)),
                (None, Schema::Option(_)) => v.push((names[i], Node::None)),
                (None, _) => return Err(A::Error::missing_field(names[i])),
            }
        }
        Ok(v)
    }
}

struct EnumV<'a>(&'static str, &'a [(&'static str, Var)]);
impl<'de, 'a> Visitor<'de> for EnumV<'a> {
    type Value = Node;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "enum {}", self.0)
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Node, A::Error> {
        let names: Vec<&'static str> = self.1.iter().map(|x| x.0).collect();
        let (w, va) = a.variant_seed(NameSeed {
            names: &names,
            deny: true,
            variant: true,
        })?;
        let Which::Known(i) = w else {
            return Err(A::Error::custom("no variant"));
        };
        let (n, idx, vn) = (self.0, i as u32, names[i]);
        match &self.1[i].1 {
            Var::Unit => {
                va.unit_variant()?;
                Ok(Node::UVariant(n, idx, vn))
            }
            Var::Newtype(s) => Ok(Node::NVariant(
                n,
                idx,
                vn,
                Box::new(va.newtype_variant_seed(s)?),
            )),
            Var::Tuple(s) => Ok(Node::TVariant(
                n,
                idx,
                vn,
                va.tuple_variant(s.len(), TupleV(s))?,
            )),
            Var::Struct(f) => {
                let l: Vec<&'static str> = f.iter().map(|x| x.0).collect();
                Ok(Node::SVariant(
                    n,
                    idx,
                    vn,
                    va.struct_variant(
                        intern_list(&l),
                        StructV {
                            name: n,
                            deny: false,
                            fields: f,
                        },
                    )?,
                ))
            }
        }
    }
}

impl<'de, 'a> DeserializeSeed<'de> for &'a Schema {
    type Value = Node;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Node, D::Error> {
        macro_rules! leaf {
            ($v:expr, $k:expr) => {
                match $k {
                    "bool" => d.deserialize_bool($v),
                    "i8" => d.deserialize_i8($v),
                    "i16" => d.deserialize_i16($v),
                    "i32" => d.deserialize_i32($v),
                    "i64" => d.deserialize_i64($v),
                    "i128" => d.deserialize_i128($v),
                    "u8" => d.deserialize_u8($v),
                    "u16" => d.deserialize_u16($v),
                    "u32" => d.deserialize_u32($v),
                    "u64" => d.deserialize_u64($v),
                    "u128" => d.deserialize_u128($v),
                    "f32" => d.deserialize_f32($v),
                    "f64" => d.deserialize_f64($v),
                    "char" => d.deserialize_char($v),
                    "str" => d.deserialize_str($v),
                    "string" => d.deserialize_string($v),
                    "bytes" => d.deserialize_bytes($v),
                    "bytebuf" => d.deserialize_byte_buf($v),
                    "ident" => d.deserialize_identifier($v),
                    k => panic!("leaf {k}"),
                }
            };
        }
        match self {
            Schema::Leaf(k) => {
                if typed() {
                    leaf!(LeafV(k), *k)
                } else {
                    leaf!(AnyV, *k)
                }
            }
            Schema::Strb => d.deserialize_str(BorrowV(true)),
            Schema::Bytesb => d.deserialize_bytes(BorrowV(false)),
            Schema::Unit => d.deserialize_unit(UnitV(None)),
            Schema::UStruct(n) => d.deserialize_unit_struct(n, UnitV(Some(n))),
            Schema::Option(s) => d.deserialize_option(OptionV(s)),
            Schema::NStruct(n, s) => d.deserialize_newtype_struct(n, NewtypeV(n, s)),
            Schema::Seq(s) => d.deserialize_seq(SeqV(s)),
            Schema::Take(n, s) => d.deserialize_seq(TakeV(*n, s)),
            Schema::Tuple(s) => d.deserialize_tuple(s.len(), TupleV(s)).map(Node::Tuple),
            Schema::TStruct(n, s) => d
                .deserialize_tuple_struct(n, s.len(), TupleV(s))
                .map(|v| Node::TStruct(n, v)),
            Schema::Map(s) => d.deserialize_map(MapV(s)),
            Schema::MTake(n, s) => d.deserialize_map(MTakeV(*n, s)),
            Schema::Struct(n, deny, f) => {
                let l: Vec<&'static str> = f.iter().map(|x| x.0).collect();
                d.deserialize_struct(
                    n,
                    intern_list(&l),
                    StructV {
                        name: n,
                        deny: *deny,
                        fields: f,
                    },
                )
                .map(|v| Node::Struct(n, v))
            }
            Schema::Enum(n, vs) => {
                let l: Vec<&'static str> = vs.iter().map(|x| x.0).collect();
                d.deserialize_enum(n, intern_list(&l), EnumV(n, vs))
            }
            Schema::Any => d.deserialize_any(AnyV),
            Schema::Ignored => {
                d.deserialize_ignored_any(IgnoredAny)?;
                Ok(Node::Ignored)
            }
            Schema::Obj(cfg, s) => with_schema(s, || crate::traits::de_obj(cfg, d)),
            Schema::Fail => Err(D::Error::custom(crate::node::injected())),
            Schema::FailAfter(s) => {
                s.deserialize(d)?;
                Err(D::Error::custom(crate::node::injected()))
            }
            Schema::Hr => {
                let h = d.is_human_readable();
                let v = <bool as Deserialize>::deserialize(d)?;
                Ok(Node::HrSeen(h, v))
            }
        }
    }
}
