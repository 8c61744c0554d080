//! Reference format without types in its data: reading must ask for exactly
//! what was written, in the order in which it was written.

use crate::doc::DocErr;
use crate::tok;
use crate::tok::*;
use serde::de::*;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

pub struct Tape {
    toks: Vec<Tok>,
    pos: Cell<usize>,
    /// what was asked for: (request, position)
    pub asked: RefCell<Vec<Tok>>,
    hr: bool,
}

impl Tape {
    pub fn new(toks: Vec<Tok>, hr: bool) -> Rc<Tape> {
        Rc::new(Tape {
            toks,
            pos: Cell::new(0),
            asked: RefCell::new(Vec::new()),
            hr,
        })
    }
    pub fn at_end(&self) -> bool {
        self.pos.get() == self.toks.len()
    }
}

#[derive(Clone)]
pub struct Strict(pub Rc<Tape>);

fn err<T>(m: String) -> Result<T, DocErr> {
    Err(DocErr::custom(m))
}

impl Strict {
    fn peek(&self) -> Option<&Tok> {
        self.0.toks.get(self.0.pos.get())
    }
    fn ask(&self, what: &[&str]) -> Result<&Tok, DocErr> {
        self.0
            .asked
            .borrow_mut()
            .push(tok![what[0], self.0.pos.get().to_string()]);
        match self.peek() {
            Some(t) if what.contains(&t[0].as_str()) => {
                self.0.pos.set(self.0.pos.get() + 1);
                Ok(self.0.toks.get(self.0.pos.get() - 1).unwrap())
            }
            t => err(format!("asked for {:?} at {:?}", what, t)),
        }
    }
    fn step(&self, what: &str) -> Result<(), DocErr> {
        match self.peek() {
            Some(t) if t[0] == what => {
                self.0.pos.set(self.0.pos.get() + 1);
                Ok(())
            }
            t => err(format!("expected {:?} at {:?}", what, t)),
        }
    }
    fn none<T>(&self, what: &str) -> Result<T, DocErr> {
        self.0
            .asked
            .borrow_mut()
            .push(tok![what, self.0.pos.get().to_string()]);
        err(format!("{} is not supported without types", what))
    }
    fn seq<'de, V: Visitor<'de>>(self, v: V) -> Result<V::Value, DocErr> {
        let s = self.clone();
        let r = v.visit_seq(Acc(self))?;
        s.step("end")?;
        Ok(r)
    }
    fn fixed<'de, V: Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, DocErr> {
        let t = self.ask(&["tuple", "tstruct"])?;
        let l = t[t.len() - 2].clone();
        if l != n.to_string() {
            return err(format!("asked for {} elements of {}", n, l));
        }
        self.seq(v)
    }
}

macro_rules! prims {
    ($($m:ident $k:literal $vm:ident;)*) => {$(
        fn $m<V: Visitor<'de>>(self, v: V) -> Result<V::Value, DocErr> {
            let t = self.ask(&[$k])?;
            v.$vm(t[1].parse().map_err(|_| DocErr::custom("number"))?)
        }
    )*}
}

impl<'de> Deserializer<'de> for Strict {
    type Error = DocErr;
    prims! {
        deserialize_bool "bool" visit_bool;
        deserialize_i8 "i8" visit_i8;
        deserialize_i16 "i16" visit_i16;
        deserialize_i32 "i32" visit_i32;
        deserialize_i64 "i64" visit_i64;
        deserialize_i128 "i128" visit_i128;
        deserialize_u8 "u8" visit_u8;
        deserialize_u16 "u16" visit_u16;
        deserialize_u32 "u32" visit_u32;
        deserialize_u64 "u64" visit_u64;
        deserialize_u128 "u128" visit_u128;
        deserialize_f32 "f32" visit_f32;
        deserialize_f64 "f64" visit_f64;
    }
    fn deserialize_any<V: Visitor<'de>>(self, _: V) -> Result<V::Value, DocErr> {
        self.none("any")
    }
    fn deserialize_char<V: Visitor<'de>>(self, v: V) -> Result<V::Value, DocErr> {
        let t = self.ask(&["char"])?;
        v.visit_char(dec(&t[1]).chars().next().unwrap())
    }
    fn deserialize_str<V: Visitor<'de>>(self, v: V) -> Result<V::Value, DocErr> {
        let t = self.ask(&["str"])?;
        v.visit_str(&dec(&t[1]))
    }
    fn deserialize_string<V: Visitor<'de>>(self, v: V) -> Result<V::Value, DocErr> {
        self.deserialize_str(v)
    }
    fn deserialize_bytes<V: Visitor<'de>>(self, v: V) -> Result<V::Value, DocErr> {
        let t = self.ask(&["bytes"])?;
        v.visit_byte_buf(unhex(&t[1]))
    }
    fn deserialize_byte_buf<V: Visitor<'de>>(self, v: V) -> Result<V::Value, DocErr> {
        self.deserialize_bytes(v)
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, DocErr> {
        if self.ask(&["none", "some"])?[0] == "none" {
            v.visit_none()
        } else {
            v.visit_some(self)
        }
    }
    fn deserialize_unit<V: Visitor<'de>>(self, v: V) -> Result<V::Value, DocErr> {
        self.ask(&["unit"])?;
        v.visit_unit()
    }
    fn deserialize_unit_struct<V: Visitor<'de>>(
        self,
        _: &'static str,
        v: V,
    ) -> Result<V::Value, DocErr> {
        self.ask(&["ustruct", "unit"])?;
        v.visit_unit()
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(
        self,
        _: &'static str,
        v: V,
    ) -> Result<V::Value, DocErr> {
        self.ask(&["nstruct"])?;
        v.visit_newtype_struct(self)
    }
    fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> Result<V::Value, DocErr> {
        self.ask(&["seq"])?;
        self.seq(v)
    }
    fn deserialize_tuple<V: Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, DocErr> {
        self.fixed(n, v)
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(
        self,
        _: &'static str,
        n: usize,
        v: V,
    ) -> Result<V::Value, DocErr> {
        self.fixed(n, v)
    }
    fn deserialize_map<V: Visitor<'de>>(self, v: V) -> Result<V::Value, DocErr> {
        self.ask(&["map"])?;
        let s = self.clone();
        let r = v.visit_map(Acc(self))?;
        s.step("end")?;
        Ok(r)
    }
    fn deserialize_struct<V: Visitor<'de>>(
        self,
        _: &'static str,
        f: &'static [&'static str],
        v: V,
    ) -> Result<V::Value, DocErr> {
        let t = self.ask(&["struct"])?;
        if t[2] != f.len().to_string() {
            return err(format!("asked for {} fields of {}", f.len(), t[2]));
        }
        self.seq(v)
    }
    fn deserialize_enum<V: Visitor<'de>>(
        self,
        _: &'static str,
        _: &'static [&'static str],
        v: V,
    ) -> Result<V::Value, DocErr> {
        let t = self.ask(&["uvariant", "nvariant", "tvariant", "svariant"])?.clone();
        v.visit_enum(EnumA(self, t))
    }
    fn deserialize_identifier<V: Visitor<'de>>(self, _: V) -> Result<V::Value, DocErr> {
        self.none("identifier")
    }
    fn deserialize_ignored_any<V: Visitor<'de>>(self, _: V) -> Result<V::Value, DocErr> {
        self.none("ignored_any")
    }
    fn is_human_readable(&self) -> bool {
        self.0.hr
    }
}

struct Acc(Strict);
impl<'de> SeqAccess<'de> for Acc {
    type Error = DocErr;
    fn next_element_seed<T: DeserializeSeed<'de>>(
        &mut self,
        s: T,
    ) -> Result<Option<T::Value>, DocErr> {
        match self.0.peek().map(|t| t[0].as_str()) {
            Some("e") | Some("f") => {
                self.0 .0.pos.set(self.0 .0.pos.get() + 1);
                s.deserialize(self.0.clone()).map(Some)
            }
            _ => Ok(None),
        }
    }
}
impl<'de> MapAccess<'de> for Acc {
    type Error = DocErr;
    fn next_key_seed<T: DeserializeSeed<'de>>(
        &mut self,
        s: T,
    ) -> Result<Option<T::Value>, DocErr> {
        match self.0.peek().map(|t| t[0].as_str()) {
            Some("k") => {
                self.0.step("k")?;
                s.deserialize(self.0.clone()).map(Some)
            }
            _ => Ok(None),
        }
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, DocErr> {
        self.0.step("v")?;
        s.deserialize(self.0.clone())
    }
}

struct EnumA(Strict, Tok);
impl<'de> EnumAccess<'de> for EnumA {
    type Error = DocErr;
    type Variant = Self;
    fn variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<(T::Value, Self), DocErr> {
        let i: u32 = self.1[2].parse().unwrap();
        let d: value::U32Deserializer<DocErr> = i.into_deserializer();
        Ok((s.deserialize(d)?, self))
    }
}
impl<'de> VariantAccess<'de> for EnumA {
    type Error = DocErr;
    fn unit_variant(self) -> Result<(), DocErr> {
        if self.1[0] == "uvariant" {
            Ok(())
        } else {
            err("asked for a unit variant".into())
        }
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<T::Value, DocErr> {
        if self.1[0] == "nvariant" {
            s.deserialize(self.0)
        } else {
            err("asked for a newtype variant".into())
        }
    }
    fn tuple_variant<V: Visitor<'de>>(self, n: usize, v: V) -> Result<V::Value, DocErr> {
        if self.1[0] == "tvariant" && self.1[4] == n.to_string() {
            self.0.seq(v)
        } else {
            err("asked for a tuple variant".into())
        }
    }
    fn struct_variant<V: Visitor<'de>>(
        self,
        f: &'static [&'static str],
        v: V,
    ) -> Result<V::Value, DocErr> {
        if self.1[0] == "svariant" && self.1[4] == f.len().to_string() {
            self.0.seq(v)
        } else {
            err("asked for a struct variant".into())
        }
    }
}
