//! Reference self-describing format: a tree of input items with exact kinds.
//!
//! Which request accepts which item is one table, the same one the
//! specification uses.  Every request counts as a read; the n-th read can be
//! made to fail.

use crate::tok::*;
use serde::de::*;
use serde_json::Value as J;
use std::cell::{Cell, RefCell};
use std::fmt::{self, Display};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Doc {
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    F32(f32),
    F64(f64),
    Char(char),
    /// transient, borrowed, owned
    Str(char, String),
    Bytes(char, Vec<u8>),
    Unit,
    None,
    Some(Box<Doc>),
    Newtype(Box<Doc>),
    Seq(Vec<Doc>),
    Map(Vec<(Doc, Doc)>),
    /// an item the format can only offer as an enum
    Enum(Box<Doc>, Box<Doc>),
    /// unreadable input
    Bad,
    /// offered as what it is, whatever is asked for
    Loose(Box<Doc>),
}

impl Doc {
    pub fn parse(j: &J) -> Doc {
        if j["loose"] == true {
            return Doc::Loose(Box::new(Doc::parse_item(j)));
        }
        Doc::parse_item(j)
    }
    fn parse_item(j: &J) -> Doc {
        let v = j["v"].as_str().unwrap_or("");
        let empty = Vec::new();
        let c = j["c"].as_array().unwrap_or(&empty);
        let one = || Box::new(Doc::parse(&c[0]));
        match j["k"].as_str().unwrap() {
            "bool" => Doc::Bool(v == "true"),
            "i8" => Doc::I8(v.parse().unwrap()),
            "i16" => Doc::I16(v.parse().unwrap()),
            "i32" => Doc::I32(v.parse().unwrap()),
            "i64" => Doc::I64(v.parse().unwrap()),
            "i128" => Doc::I128(v.parse().unwrap()),
            "u8" => Doc::U8(v.parse().unwrap()),
            "u16" => Doc::U16(v.parse().unwrap()),
            "u32" => Doc::U32(v.parse().unwrap()),
            "u64" => Doc::U64(v.parse().unwrap()),
            "u128" => Doc::U128(v.parse().unwrap()),
            "f32" => Doc::F32(v.parse().unwrap()),
            "f64" => Doc::F64(v.parse().unwrap()),
            "char" => Doc::Char(dec(v).chars().next().unwrap()),
            "str" => Doc::Str('t', dec(v)),
            "strb" => Doc::Str('b', dec(v)),
            "stro" => Doc::Str('o', dec(v)),
            "bytes" => Doc::Bytes('t', unhex(v)),
            "bytesb" => Doc::Bytes('b', unhex(v)),
            "byteso" => Doc::Bytes('o', unhex(v)),
            "unit" => Doc::Unit,
            "none" => Doc::None,
            "some" => Doc::Some(one()),
            "newtype" => Doc::Newtype(one()),
            "seq" => Doc::Seq(c.iter().map(Doc::parse).collect()),
            "map" => Doc::Map(
                c.chunks(2)
                    .map(|p| (Doc::parse(&p[0]), Doc::parse(&p[1])))
                    .collect(),
            ),
            "enum" => Doc::Enum(Box::new(Doc::parse(&c[0])), Box::new(Doc::parse(&c[1]))),
            "bad" => Doc::Bad,
            k => panic!("doc {k}"),
        }
    }
}

#[derive(Clone, Debug)]
pub struct DocErr {
    pub kind: &'static str,
    pub arg: String,
    pub list: Vec<String>,
    pub msg: String,
}

impl DocErr {
    fn new(kind: &'static str, arg: impl Into<String>, msg: String) -> DocErr {
        DocErr {
            kind,
            arg: arg.into(),
            list: Vec::new(),
            msg,
        }
    }
}

impl Display for DocErr {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.msg)
    }
}
impl std::error::Error for DocErr {}
impl Error for DocErr {
    fn custom<T: Display>(m: T) -> Self {
        DocErr::new("custom", "", m.to_string())
    }
    fn invalid_type(u: Unexpected, e: &dyn Expected) -> Self {
        DocErr::new("invalid_type", "", format!("invalid type: {}, expected {}", u, e))
    }
    fn invalid_value(u: Unexpected, e: &dyn Expected) -> Self {
        DocErr::new("invalid_value", "", format!("invalid value: {}, expected {}", u, e))
    }
    fn invalid_length(n: usize, e: &dyn Expected) -> Self {
        DocErr::new("invalid_length", n.to_string(), format!("invalid length {}, expected {}", n, e))
    }
    fn unknown_variant(v: &str, l: &'static [&'static str]) -> Self {
        let mut e = DocErr::new("unknown_variant", v, format!("unknown variant `{}`, expected {:?}", v, l));
        e.list = l.iter().map(|s| s.to_string()).collect();
        e
    }
    fn unknown_field(v: &str, l: &'static [&'static str]) -> Self {
        let mut e = DocErr::new("unknown_field", v, format!("unknown field `{}`, expected {:?}", v, l));
        e.list = l.iter().map(|s| s.to_string()).collect();
        e
    }
    fn missing_field(f: &'static str) -> Self {
        DocErr::new("missing_field", f, format!("missing field `{}`", f))
    }
    fn duplicate_field(f: &'static str) -> Self {
        DocErr::new("duplicate_field", f, format!("duplicate field `{}`", f))
    }
}

pub struct Env {
    pub hr: bool,
    /// leave it to the visitors to read maps to their end, and hint at
    /// enormous sizes
    pub lax: bool,
    pub fail_at: Option<usize>,
    pub reads: Cell<usize>,
    pub fired: Cell<bool>,
}

impl Env {
    pub fn new(hr: bool, lax: bool, fail_at: Option<usize>) -> Rc<Env> {
        Rc::new(Env {
            hr,
            lax,
            fail_at,
            reads: Cell::new(0),
            fired: Cell::new(false),
        })
    }
    /// Nothing may be asked for once the end was reported.
    fn past_end(&self, ended: &mut bool, left: usize) -> Result<(), DocErr> {
        if *ended {
            return Err(DocErr::new("protocol", "", "read past the end".into()));
        }
        *ended = left == 0;
        Ok(())
    }
    fn read(&self) -> Result<(), DocErr> {
        let n = self.reads.get() + 1;
        self.reads.set(n);
        if self.fail_at.map_or(false, |f| n == f) {
            self.fired.set(true);
            return Err(DocErr::new("injected", "", crate::rec::INJECTED_FMT.into()));
        }
        Ok(())
    }
}

#[derive(Clone)]
pub struct De<'de> {
    doc: &'de Doc,
    env: Rc<Env>,
    loose: bool,
}

thread_local! {
    static BUFFER: RefCell<String> = RefCell::new(String::with_capacity(4096));
}

/// formats have one buffer for all that they do not borrow
fn transient<T>(s: &str, f: impl FnOnce(&str) -> T) -> T {
    let mut b = BUFFER.with(|b| b.take());
    b.clear();
    b.push_str(s);
    let r = f(&b);
    if b.capacity() > 8192 {
        b = String::with_capacity(4096);
    }
    // overwritten before long
    b.clear();
    b.push_str("?");
    BUFFER.with(|c| *c.borrow_mut() = b);
    r
}

impl<'de> De<'de> {
    pub fn new(doc: &'de Doc, env: Rc<Env>) -> Self {
        match doc {
            Doc::Loose(doc) => De { doc, env, loose: true },
            _ => De { doc, env, loose: false },
        }
    }
    fn at(&self, doc: &'de Doc) -> De<'de> {
        De::new(doc, self.env.clone())
    }
    fn bad<V>(&self, v: &dyn Expected) -> Result<V, DocErr> {
        let un = match self.doc {
            Doc::Bool(b) => Unexpected::Bool(*b),
            Doc::Str(_, s) => Unexpected::Str(s),
            Doc::Bytes(_, s) => Unexpected::Bytes(s),
            Doc::Unit => Unexpected::Unit,
            Doc::None | Doc::Some(_) => Unexpected::Option,
            Doc::Seq(_) => Unexpected::Seq,
            Doc::Map(_) => Unexpected::Map,
            Doc::Enum(..) => Unexpected::Enum,
            Doc::Bad => return Err(DocErr::new("unreadable", "", "unreadable input".into())),
            _ => Unexpected::Other("scalar"),
        };
        Err(DocErr::invalid_type(un, v))
    }
    fn int<V: Visitor<'de>>(self, v: V) -> Result<V::Value, DocErr> {
        match *self.doc {
            Doc::I8(x) => v.visit_i8(x),
            Doc::I16(x) => v.visit_i16(x),
            Doc::I32(x) => v.visit_i32(x),
            Doc::I64(x) => v.visit_i64(x),
            Doc::I128(x) => v.visit_i128(x),
            Doc::U8(x) => v.visit_u8(x),
            Doc::U16(x) => v.visit_u16(x),
            Doc::U32(x) => v.visit_u32(x),
            Doc::U64(x) => v.visit_u64(x),
            Doc::U128(x) => v.visit_u128(x),
            _ => self.bad(&v),
        }
    }
    fn string<V: Visitor<'de>>(self, v: V) -> Result<V::Value, DocErr> {
        match self.doc {
            Doc::Str('b', s) => v.visit_borrowed_str(s),
            Doc::Str('o', s) => v.visit_string(s.clone()),
            Doc::Str(_, s) => transient(s, |s| v.visit_str(s)),
            Doc::Bytes('b', s) => v.visit_borrowed_bytes(s),
            Doc::Bytes('o', s) => v.visit_byte_buf(s.clone()),
            Doc::Bytes(_, s) => {
                let tmp = s.clone();
                v.visit_bytes(&tmp)
            }
            _ => self.bad(&v),
        }
    }
    fn seq<V: Visitor<'de>>(&self, l: &'de [Doc], v: V) -> Result<V::Value, DocErr> {
        let mut a = SeqA {
            it: l.iter(),
            ended: false,
            env: self.env.clone(),
        };
        let r = v.visit_seq(&mut a)?;
        if a.it.len() != 0 {
            return Err(DocErr::new("trailing", "", "surplus elements".into()));
        }
        Ok(r)
    }
    fn map<V: Visitor<'de>>(&self, l: &'de [(Doc, Doc)], v: V) -> Result<V::Value, DocErr> {
        let mut a = MapA {
            it: l.iter(),
            val: None,
            ended: false,
            env: self.env.clone(),
        };
        let r = v.visit_map(&mut a)?;
        if a.it.len() != 0 && !self.env.lax {
            return Err(DocErr::new("trailing", "", "surplus entries".into()));
        }
        Ok(r)
    }
}

macro_rules! fwd {
    ($($m:ident => $t:ident;)*) => {$(
        fn $m<V: Visitor<'de>>(self, v: V) -> Result<V::Value, DocErr> {
            if self.loose {
                return self.deserialize_any(v);
            }
            self.env.read()?;
            self.$t(v)
        }
    )*}
}

impl<'de> Deserializer<'de> for De<'de> {
    type Error = DocErr;

    fwd! {
        deserialize_i8 => int; deserialize_i16 => int; deserialize_i32 => int;
        deserialize_i64 => int; deserialize_i128 => int; deserialize_u8 => int;
        deserialize_u16 => int; deserialize_u32 => int; deserialize_u64 => int;
        deserialize_u128 => int; deserialize_str => string; deserialize_string => string;
    }

    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, DocErr> {
        self.env.read()?;
        match self.doc {
            Doc::Bool(x) => v.visit_bool(*x),
            Doc::F32(x) => v.visit_f32(*x),
            Doc::F64(x) => v.visit_f64(*x),
            Doc::Char(x) => v.visit_char(*x),
            Doc::Str(..) | Doc::Bytes(..) => self.string(v),
            Doc::Unit => v.visit_unit(),
            Doc::None => v.visit_none(),
            Doc::Some(x) => v.visit_some(self.at(x)),
            Doc::Newtype(x) => v.visit_newtype_struct(self.at(x)),
            Doc::Seq(l) => self.seq(l, v),
            Doc::Map(l) => self.map(l, v),
            Doc::Enum(a, b) => v.visit_enum(EnumA {
                variant: self.at(a),
                value: Some(self.at(b)),
            }),
            Doc::Bad => self.bad(&v),
            _ => self.int(v),
        }
    }
    fn deserialize_bool<V: Visitor<'de>>(self, v: V) -> Result<V::Value, DocErr> {
        self.env.read()?;
        match self.doc {
            Doc::Bool(x) => v.visit_bool(*x),
            _ => self.bad(&v),
        }
    }
    fn deserialize_f32<V: Visitor<'de>>(self, v: V) -> Result<V::Value, DocErr> {
        self.deserialize_f64(v)
    }
    fn deserialize_f64<V: Visitor<'de>>(self, v: V) -> Result<V::Value, DocErr> {
        self.env.read()?;
        match self.doc {
            Doc::F32(x) => v.visit_f32(*x),
            Doc::F64(x) => v.visit_f64(*x),
            _ => self.int(v),
        }
    }
    fn deserialize_char<V: Visitor<'de>>(self, v: V) -> Result<V::Value, DocErr> {
        self.env.read()?;
        match self.doc {
            Doc::Char(x) => v.visit_char(*x),
            Doc::Str(..) => self.string(v),
            _ => self.bad(&v),
        }
    }
    fn deserialize_bytes<V: Visitor<'de>>(self, v: V) -> Result<V::Value, DocErr> {
        self.deserialize_byte_buf(v)
    }
    fn deserialize_byte_buf<V: Visitor<'de>>(self, v: V) -> Result<V::Value, DocErr> {
        self.env.read()?;
        match self.doc {
            Doc::Seq(l) => self.seq(l, v),
            _ => self.string(v),
        }
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, DocErr> {
        self.env.read()?;
        match self.doc {
            Doc::None => v.visit_none(),
            Doc::Unit => v.visit_unit(),
            Doc::Some(x) => v.visit_some(self.at(x)),
            Doc::Bad => self.bad(&v),
            _ => v.visit_some(self),
        }
    }
    fn deserialize_unit<V: Visitor<'de>>(self, v: V) -> Result<V::Value, DocErr> {
        self.env.read()?;
        match self.doc {
            Doc::Unit => v.visit_unit(),
            _ => self.bad(&v),
        }
    }
    fn deserialize_unit_struct<V: Visitor<'de>>(
        self,
        _: &'static str,
        v: V,
    ) -> Result<V::Value, DocErr> {
        self.deserialize_unit(v)
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(
        self,
        _: &'static str,
        v: V,
    ) -> Result<V::Value, DocErr> {
        self.env.read()?;
        match self.doc {
            Doc::Newtype(x) => v.visit_newtype_struct(self.at(x)),
            Doc::Bad => self.bad(&v),
            _ => v.visit_newtype_struct(self),
        }
    }
    fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> Result<V::Value, DocErr> {
        if self.loose {
            return self.deserialize_any(v);
        }
        self.env.read()?;
        match self.doc {
            Doc::Seq(l) => self.seq(l, v),
            _ => self.bad(&v),
        }
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, DocErr> {
        self.deserialize_seq(v)
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(
        self,
        _: &'static str,
        _: usize,
        v: V,
    ) -> Result<V::Value, DocErr> {
        self.deserialize_seq(v)
    }
    fn deserialize_map<V: Visitor<'de>>(self, v: V) -> Result<V::Value, DocErr> {
        if self.loose {
            return self.deserialize_any(v);
        }
        self.env.read()?;
        match self.doc {
            Doc::Map(l) => self.map(l, v),
            _ => self.bad(&v),
        }
    }
    fn deserialize_struct<V: Visitor<'de>>(
        self,
        _: &'static str,
        _: &'static [&'static str],
        v: V,
    ) -> Result<V::Value, DocErr> {
        if self.loose {
            return self.deserialize_any(v);
        }
        self.env.read()?;
        match self.doc {
            Doc::Map(l) => self.map(l, v),
            Doc::Seq(l) => self.seq(l, v),
            _ => self.bad(&v),
        }
    }
    fn deserialize_enum<V: Visitor<'de>>(
        self,
        _: &'static str,
        _: &'static [&'static str],
        v: V,
    ) -> Result<V::Value, DocErr> {
        if self.loose {
            return self.deserialize_any(v);
        }
        self.env.read()?;
        match self.doc {
            Doc::Str(..) => v.visit_enum(EnumA {
                variant: self,
                value: None,
            }),
            Doc::Map(l) if l.len() == 1 => v.visit_enum(EnumA {
                variant: self.at(&l[0].0),
                value: Some(self.at(&l[0].1)),
            }),
            Doc::Enum(a, b) => v.visit_enum(EnumA {
                variant: self.at(a),
                value: Some(self.at(b)),
            }),
            _ => self.bad(&v),
        }
    }
    fn deserialize_identifier<V: Visitor<'de>>(self, v: V) -> Result<V::Value, DocErr> {
        if self.loose {
            return self.deserialize_any(v);
        }
        self.env.read()?;
        match self.doc {
            Doc::Str(..) | Doc::Bytes(..) => self.string(v),
            Doc::U8(_) | Doc::U16(_) | Doc::U32(_) | Doc::U64(_) => self.int(v),
            _ => self.bad(&v),
        }
    }
    fn deserialize_ignored_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, DocErr> {
        self.env.read()?;
        match self.doc {
            Doc::Bad => self.bad(&v),
            _ => v.visit_unit(),
        }
    }
    fn is_human_readable(&self) -> bool {
        self.env.hr
    }
}

struct SeqA<'de> {
    it: std::slice::Iter<'de, Doc>,
    ended: bool,
    env: Rc<Env>,
}
impl<'de> SeqAccess<'de> for SeqA<'de> {
    type Error = DocErr;
    fn next_element_seed<T: DeserializeSeed<'de>>(
        &mut self,
        s: T,
    ) -> Result<Option<T::Value>, DocErr> {
        self.env.read()?;
        self.env.past_end(&mut self.ended, self.it.len())?;
        match self.it.next() {
            Some(d) => s.deserialize(De::new(d, self.env.clone())).map(Some),
            None => Ok(None),
        }
    }
    fn size_hint(&self) -> Option<usize> {
        // only a hint, which formats take from the input unseen
        Some(if self.env.lax { usize::MAX } else { self.it.len() })
    }
}

struct MapA<'de> {
    it: std::slice::Iter<'de, (Doc, Doc)>,
    val: Option<&'de Doc>,
    ended: bool,
    env: Rc<Env>,
}
impl<'de> MapAccess<'de> for MapA<'de> {
    type Error = DocErr;
    fn next_key_seed<T: DeserializeSeed<'de>>(
        &mut self,
        s: T,
    ) -> Result<Option<T::Value>, DocErr> {
        self.env.read()?;
        if self.val.is_some() {
            return Err(DocErr::new("protocol", "", "key requested instead of value".into()));
        }
        self.env.past_end(&mut self.ended, self.it.len())?;
        match self.it.next() {
            Some((k, v)) => {
                self.val = Some(v);
                s.deserialize(De::new(k, self.env.clone())).map(Some)
            }
            None => Ok(None),
        }
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, DocErr> {
        match self.val.take() {
            Some(v) => s.deserialize(De::new(v, self.env.clone())),
            None => Err(DocErr::new("protocol", "", "value requested without key".into())),
        }
    }
    fn size_hint(&self) -> Option<usize> {
        // only a hint, which formats take from the input unseen
        Some(if self.env.lax { usize::MAX } else { self.it.len() })
    }
}

struct EnumA<'de> {
    variant: De<'de>,
    value: Option<De<'de>>,
}
impl<'de> EnumAccess<'de> for EnumA<'de> {
    type Error = DocErr;
    type Variant = VarA<'de>;
    fn variant_seed<T: DeserializeSeed<'de>>(
        self,
        s: T,
    ) -> Result<(T::Value, VarA<'de>), DocErr> {
        Ok((s.deserialize(self.variant)?, VarA(self.value)))
    }
}
struct VarA<'de>(Option<De<'de>>);
impl<'de> VariantAccess<'de> for VarA<'de> {
    type Error = DocErr;
    fn unit_variant(self) -> Result<(), DocErr> {
        match self.0 {
            Some(d) => <() as Deserialize>::deserialize(d),
            None => Ok(()),
        }
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<T::Value, DocErr> {
        match self.0 {
            Some(d) => s.deserialize(d),
            None => Err(DocErr::invalid_type(Unexpected::UnitVariant, &"newtype variant")),
        }
    }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, DocErr> {
        match self.0 {
            Some(d) => d.deserialize_seq(v),
            None => Err(DocErr::invalid_type(Unexpected::UnitVariant, &"tuple variant")),
        }
    }
    fn struct_variant<V: Visitor<'de>>(
        self,
        _: &'static [&'static str],
        v: V,
    ) -> Result<V::Value, DocErr> {
        match self.0 {
            Some(d) => d.deserialize_struct("", &[], v),
            None => Err(DocErr::invalid_type(Unexpected::UnitVariant, &"struct variant")),
        }
    }
}
