//! Recording format: a `Serializer` that logs every call made on it, can
//! report itself as human readable or not and can fail at the n-th call.

use crate::tok;
use crate::tok::*;
use serde::ser::*;
use std::cell::RefCell;
use std::fmt::{self, Display};
use std::rc::Rc;

// long, of several lines, and of characters of all sizes
pub const INJECTED_FMT: &str = "injected-format-failure: {0} {} {:?} %s \"quoted\" \\ \u{0}\n\tsecond line\r\n\u{20ac}\u{1f600} and so on and on, and so on and on, and so on and on, and so on and on, \u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}\u{1f600}x\u{1f600}x\u{1f600}x\u{1f600}x\u{1f600}x\u{1f600}x\u{1f600}x\u{1f600}x\u{1f600}x\u{1f600}x\u{1f600}x\u{1f600}x\u{1f600}x\u{1f600}x\u{1f600}x\u{1f600}x\u{1f600}x\u{1f600}x\u{1f600}x\u{1f600}x\u{1f600}x\u{1f600}x\u{1f600}x\u{1f600}x\u{1f600}x\u{1f600}x\u{1f600}x\u{1f600}x\u{1f600}x\u{1f600}x\u{1f600} at the end; \n";

#[derive(Debug, Clone)]
pub struct RecErr(pub String);
impl Display for RecErr {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for RecErr {}
impl Error for RecErr {
    fn custom<T: Display>(m: T) -> Self {
        RecErr(m.to_string())
    }
}

#[derive(Default)]
pub struct State {
    pub toks: Vec<Tok>,
    /// open containers: index of the opening token, announced and seen items
    stack: Vec<(usize, usize)>,
    pub fail_at: Option<usize>,
    pub fired: bool,
}

#[derive(Clone)]
pub struct Rec {
    st: Rc<RefCell<State>>,
    hr: bool,
}

pub struct Out {
    pub toks: Vec<Tok>,
    pub fired: bool,
}

impl Rec {
    pub fn new(hr: bool, fail_at: Option<usize>) -> Self {
        Rec {
            st: Rc::new(RefCell::new(State {
                fail_at,
                ..State::default()
            })),
            hr,
        }
    }
    pub fn out(&self) -> Out {
        let s = self.st.borrow();
        Out {
            toks: s.toks.clone(),
            fired: s.fired,
        }
    }
    fn ev(&self, t: Tok) -> Result<(), RecErr> {
        let mut s = self.st.borrow_mut();
        s.toks.push(t);
        if let Some(n) = s.fail_at {
            if s.toks.len() == n {
                s.fired = true;
                return Err(RecErr(INJECTED_FMT.into()));
            }
        }
        Ok(())
    }
    fn open(&self, mut t: Tok, ann: Option<usize>) -> Result<Comp, RecErr> {
        t.push(ann.map_or("?".into(), |n| n.to_string()));
        t.push("?".into());
        {
            let mut s = self.st.borrow_mut();
            let i = s.toks.len();
            s.stack.push((i, 0));
        }
        self.ev(t)?;
        Ok(Comp(self.clone()))
    }
    fn item(&self, t: Tok) -> Result<(), RecErr> {
        if let Some(top) = self.st.borrow_mut().stack.last_mut() {
            top.1 += 1;
        }
        self.ev(t)
    }
    fn close(&self) -> Result<(), RecErr> {
        self.ev(tok!["end"])?;
        let mut s = self.st.borrow_mut();
        if let Some((i, n)) = s.stack.pop() {
            let t = &mut s.toks[i];
            let l = t.len();
            t[l - 1] = n.to_string();
        }
        Ok(())
    }
}

pub struct Comp(Rec);

macro_rules! prim {
    ($($m:ident $t:ty, $k:literal;)*) => {$(
        fn $m(self, v: $t) -> Result<(), RecErr> { self.ev(tok![$k, v.to_string()]) }
    )*}
}

impl Serializer for Rec {
    type Ok = ();
    type Error = RecErr;
    type SerializeSeq = Comp;
    type SerializeTuple = Comp;
    type SerializeTupleStruct = Comp;
    type SerializeTupleVariant = Comp;
    type SerializeMap = Comp;
    type SerializeStruct = Comp;
    type SerializeStructVariant = Comp;

    prim! {
        serialize_bool bool, "bool";
        serialize_i8 i8, "i8";
        serialize_i16 i16, "i16";
        serialize_i32 i32, "i32";
        serialize_i64 i64, "i64";
        serialize_i128 i128, "i128";
        serialize_u8 u8, "u8";
        serialize_u16 u16, "u16";
        serialize_u32 u32, "u32";
        serialize_u64 u64, "u64";
        serialize_u128 u128, "u128";
    }
    fn serialize_f32(self, v: f32) -> Result<(), RecErr> {
        self.ev(tok!["f32", f32s(v)])
    }
    fn serialize_f64(self, v: f64) -> Result<(), RecErr> {
        self.ev(tok!["f64", f64s(v)])
    }
    fn serialize_char(self, v: char) -> Result<(), RecErr> {
        self.ev(tok!["char", enc(&v.to_string())])
    }
    fn serialize_str(self, v: &str) -> Result<(), RecErr> {
        self.ev(tok!["str", enc(v)])
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<(), RecErr> {
        self.ev(tok!["bytes", hex(v)])
    }
    fn serialize_none(self) -> Result<(), RecErr> {
        self.ev(tok!["none"])
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<(), RecErr> {
        self.ev(tok!["some"])?;
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result<(), RecErr> {
        self.ev(tok!["unit"])
    }
    fn serialize_unit_struct(self, n: &'static str) -> Result<(), RecErr> {
        if n == "$fail" || n == "$hr" {
            return self.ev(tok![&n[1..]]);
        }
        if let Some(r) = n.strip_prefix("$hrstr:") {
            let (a, b) = r.split_once(':').unwrap();
            return self.ev(tok!["hrstr", a, b]);
        }
        if let Some(r) = n.strip_prefix("$hrseen:") {
            let (a, b) = r.split_once(':').unwrap();
            return self.ev(tok!["hrseen", a, b]);
        }
        self.ev(tok!["ustruct", enc(n)])
    }
    fn serialize_unit_variant(
        self,
        n: &'static str,
        i: u32,
        v: &'static str,
    ) -> Result<(), RecErr> {
        self.ev(tok!["uvariant", enc(n), i.to_string(), enc(v)])
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(
        self,
        n: &'static str,
        v: &T,
    ) -> Result<(), RecErr> {
        self.ev(tok!["nstruct", enc(n)])?;
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(
        self,
        n: &'static str,
        i: u32,
        va: &'static str,
        v: &T,
    ) -> Result<(), RecErr> {
        self.ev(tok!["nvariant", enc(n), i.to_string(), enc(va)])?;
        v.serialize(self)
    }
    fn serialize_seq(self, l: Option<usize>) -> Result<Comp, RecErr> {
        self.open(tok!["seq"], l)
    }
    fn serialize_tuple(self, l: usize) -> Result<Comp, RecErr> {
        self.open(tok!["tuple"], Some(l))
    }
    fn serialize_tuple_struct(self, n: &'static str, l: usize) -> Result<Comp, RecErr> {
        if let Some(r) = n.strip_prefix("$obj|") {
            let (cfg, tag) = r.split_once('|').unwrap();
            // element and end events are left out, see below
            self.ev(tok!["obj", enc(cfg), enc(tag)])?;
            self.st.borrow_mut().stack.push((usize::MAX, 0));
            return Ok(Comp(self));
        }
        self.open(tok!["tstruct", enc(n)], Some(l))
    }
    fn serialize_tuple_variant(
        self,
        n: &'static str,
        i: u32,
        v: &'static str,
        l: usize,
    ) -> Result<Comp, RecErr> {
        self.open(tok!["tvariant", enc(n), i.to_string(), enc(v)], Some(l))
    }
    fn serialize_map(self, l: Option<usize>) -> Result<Comp, RecErr> {
        self.open(tok!["map"], l)
    }
    fn serialize_struct(self, n: &'static str, l: usize) -> Result<Comp, RecErr> {
        self.open(tok!["struct", enc(n)], Some(l))
    }
    fn serialize_struct_variant(
        self,
        n: &'static str,
        i: u32,
        v: &'static str,
        l: usize,
    ) -> Result<Comp, RecErr> {
        self.open(tok!["svariant", enc(n), i.to_string(), enc(v)], Some(l))
    }
    fn is_human_readable(&self) -> bool {
        self.hr
    }
}

impl Comp {
    fn is_obj(&self) -> bool {
        self.0.st.borrow().stack.last().map(|x| x.0) == Some(usize::MAX)
    }
    fn elem<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), RecErr> {
        if !self.is_obj() {
            self.0.item(tok!["e"])?;
        }
        v.serialize(self.0.clone())
    }
    fn fin(self) -> Result<(), RecErr> {
        if self.is_obj() {
            self.0.st.borrow_mut().stack.pop();
            return self.0.ev(tok!["endobj"]);
        }
        self.0.close()
    }
    fn field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), RecErr> {
        self.0.item(tok!["f", enc(k)])?;
        v.serialize(self.0.clone())
    }
}

impl SerializeSeq for Comp {
    type Ok = ();
    type Error = RecErr;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), RecErr> {
        self.elem(v)
    }
    fn end(self) -> Result<(), RecErr> {
        self.fin()
    }
}
impl SerializeTuple for Comp {
    type Ok = ();
    type Error = RecErr;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), RecErr> {
        self.elem(v)
    }
    fn end(self) -> Result<(), RecErr> {
        self.fin()
    }
}
impl SerializeTupleStruct for Comp {
    type Ok = ();
    type Error = RecErr;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), RecErr> {
        self.elem(v)
    }
    fn end(self) -> Result<(), RecErr> {
        self.fin()
    }
}
impl SerializeTupleVariant for Comp {
    type Ok = ();
    type Error = RecErr;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), RecErr> {
        self.elem(v)
    }
    fn end(self) -> Result<(), RecErr> {
        self.fin()
    }
}
impl SerializeMap for Comp {
    type Ok = ();
    type Error = RecErr;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), RecErr> {
        self.0.item(tok!["k"])?;
        v.serialize(self.0.clone())
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), RecErr> {
        self.0.ev(tok!["v"])?;
        v.serialize(self.0.clone())
    }
    fn end(self) -> Result<(), RecErr> {
        self.fin()
    }
}
impl SerializeStruct for Comp {
    type Ok = ();
    type Error = RecErr;
    fn serialize_field<T: ?Sized + Serialize>(
        &mut self,
        k: &'static str,
        v: &T,
    ) -> Result<(), RecErr> {
        self.field(k, v)
    }
    fn end(self) -> Result<(), RecErr> {
        self.fin()
    }
}
impl SerializeStructVariant for Comp {
    type Ok = ();
    type Error = RecErr;
    fn serialize_field<T: ?Sized + Serialize>(
        &mut self,
        k: &'static str,
        v: &T,
    ) -> Result<(), RecErr> {
        self.field(k, v)
    }
    fn end(self) -> Result<(), RecErr> {
        self.fin()
    }
}

/// The value's own event stream, trait objects and environment left symbolic.
pub fn own_tokens<T: ?Sized + Serialize>(v: &T) -> Result<Vec<Tok>, String> {
    let r = Rec::new(true, None);
    let res = crate::node::raw_mode(|| v.serialize(r.clone()));
    res.map(|()| r.out().toks).map_err(|e| e.0)
}
