//! Ordinary derived types as implementations: what users of the crate write.

use crate::tok::Tok;
use serde::{Deserialize, Serialize};
use std::any::Any;
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr};
use std::num::NonZeroU32;
use std::time::Duration;

pub trait Zoo {
    fn any(&self) -> &dyn Any;
    fn ty(&self) -> &'static str;
    fn toks(&self) -> Vec<Tok>;
}

#[typetag::serde]
pub trait ZExt: Zoo {}
#[typetag::serde(tag = "type")]
pub trait ZInt: Zoo {}
#[typetag::serde(tag = "t", content = "c")]
pub trait ZAdj: Zoo {}
/// a second internally tagged trait whose tag clashes with nothing
#[typetag::serde(tag = "$k", default_variant = "ZPoint")]
pub trait ZDef: Zoo {}

pub type Make<T> = fn(&mut Rng) -> T;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn flip(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn text(&mut self) -> String {
        const T: &[&str] = &[
            "", "a", "t", "c", "type", "value", "ünï", "\"q\"\\", "line\nbreak", "ZPoint", "0", "null",
        ];
        T[self.below(T.len())].to_owned()
    }
    pub fn int(&mut self) -> i64 {
        const T: &[i64] = &[0, 1, -1, 127, 128, -129, 255, 256, 65536, i32::MAX as i64, i64::MIN, i64::MAX];
        T[self.below(T.len())]
    }
    pub fn float(&mut self) -> f64 {
        const T: &[f64] = &[0.0, 1.0, -2.5, 1e30, 0.1, 3.0];
        T[self.below(T.len())]
    }
}

/// Formats are written generically over this: runs one value.
pub trait Runner {
    type Out;
    fn run<T: Serialize + for<'de> Deserialize<'de> + Zoo + Clone + 'static>(
        &mut self,
        v: T,
        ext: Box<dyn ZExt>,
        int: Box<dyn ZInt>,
        adj: Box<dyn ZAdj>,
        def: Box<dyn ZDef>,
    ) -> Self::Out;
}

macro_rules! zoo {
    ($($t:ident = $make:expr;)*) => {
        $(
            impl Zoo for $t {
                fn any(&self) -> &dyn Any { self }
                fn ty(&self) -> &'static str { stringify!($t) }
                fn toks(&self) -> Vec<Tok> {
                    crate::rec::own_tokens(self).unwrap_or_else(|e| vec![vec!["error".into(), e]])
                }
            }
            #[typetag::serde]
            impl ZExt for $t {}
            #[typetag::serde]
            impl ZInt for $t {}
            #[typetag::serde]
            impl ZAdj for $t {}
            #[typetag::serde]
            impl ZDef for $t {}
        )*
        pub const TYPES: &[&str] = &[$(stringify!($t)),*];
        pub fn run<R: Runner>(ty: &str, seed: u64, r: &mut R) -> R::Out {
            match ty {
                $(stringify!($t) => {
                    let f: Make<$t> = $make;
                    let v = f(&mut Rng(seed));
                    r.run(v.clone(), Box::new(v.clone()), Box::new(v.clone()), Box::new(v.clone()), Box::new(v))
                })*
                _ => panic!("zoo type {ty}"),
            }
        }
    };
}

#[derive(Clone, Serialize, Deserialize)]
pub struct ZUnit;
#[derive(Clone, Serialize, Deserialize)]
pub struct ZNew(String);
#[derive(Clone, Serialize, Deserialize)]
pub struct ZNewNum(i64);
#[derive(Clone, Serialize, Deserialize)]
pub struct ZNewFloat(f64);
#[derive(Clone, Serialize, Deserialize)]
pub struct ZPair(u8, Option<String>);
#[derive(Clone, Serialize, Deserialize)]
pub struct ZPoint {
    x: i32,
    y: i32,
}
#[derive(Clone, Serialize, Deserialize)]
#[serde(rename_all = "kebab-case", deny_unknown_fields)]
pub struct ZDeny {
    first_field: u16,
    second_field: Option<u128>,
}
#[derive(Clone, Serialize, Deserialize)]
pub struct ZNested {
    list: Vec<Option<ZPoint>>,
    map: BTreeMap<String, ZEnum>,
    tup: (bool, char, f32),
}
#[derive(Clone, Serialize, Deserialize)]
pub enum ZEnum {
    U,
    N(i16),
    T(u8, String),
    S { a: Option<i32>, b: Vec<ZEnum> },
}
#[derive(Clone, Serialize, Deserialize)]
pub struct ZVec(Vec<ZEnum>);
#[derive(Clone, Serialize, Deserialize)]
pub struct ZMap(BTreeMap<String, u64>);
#[derive(Clone, Serialize, Deserialize)]
pub struct ZIntMap {
    m: BTreeMap<i32, String>,
}
#[derive(Clone, Serialize, Deserialize)]
pub struct ZTopIntMap(BTreeMap<i32, String>);
#[derive(Clone, Serialize, Deserialize)]
pub struct ZBoolMap(BTreeMap<bool, u8>);
#[derive(Clone, Serialize, Deserialize)]
pub struct ZOpt(Option<ZPoint>);
#[derive(Clone, Serialize, Deserialize)]
pub struct ZOptVec(Option<Vec<Option<u8>>>);
#[derive(Clone, Serialize, Deserialize)]
pub struct ZAddr {
    ip: IpAddr,
    more: Vec<IpAddr>,
    opt: Option<IpAddr>,
    map: BTreeMap<String, IpAddr>,
}
#[derive(Clone, Serialize, Deserialize)]
pub struct ZTopAddr(IpAddr);
#[derive(Clone, Serialize, Deserialize)]
pub struct ZOptAddr(Option<IpAddr>);
#[derive(Clone, Serialize, Deserialize)]
pub struct ZAddrMap(BTreeMap<Ipv4Addr, u8>);
#[derive(Clone, Serialize, Deserialize)]
pub enum ZAddrEnum {
    N(Ipv4Addr),
    T(Ipv4Addr, Ipv6Addr),
    S { a: Ipv6Addr },
}
#[derive(Clone, Serialize, Deserialize)]
pub struct ZAddrTuple(Ipv4Addr, (Ipv4Addr, [Ipv4Addr; 2]));
#[derive(Clone, Serialize, Deserialize)]
pub struct ZStd {
    d: Duration,
    n: NonZeroU32,
    r: std::ops::Range<u8>,
    s: BTreeSet<char>,
    c: Cow<'static, str>,
    b: Box<[i8]>,
    a: [u16; 3],
    res: Result<u8, String>,
}
#[derive(Clone, Serialize, Deserialize)]
pub struct ZWide {
    a: u128,
    b: i128,
    c: Vec<u128>,
}
#[derive(Clone, Serialize, Deserialize)]
pub struct ZFlat {
    a: u8,
    #[serde(flatten)]
    rest: BTreeMap<String, i64>,
}
#[derive(Clone, Serialize, Deserialize)]
pub struct ZInner {
    e: ZTagged,
    u: ZUntagged,
}
#[derive(Clone, Serialize, Deserialize)]
#[serde(tag = "kind")]
pub enum ZTagged {
    A { x: u8 },
    B(ZPoint),
    C,
}
#[derive(Clone, Serialize, Deserialize)]
#[serde(untagged)]
pub enum ZUntagged {
    N(i32),
    S(String),
    P { x: i32, y: i32 },
}
#[derive(Clone, Serialize, Deserialize)]
pub struct ZSkip {
    a: u8,
    #[serde(skip_serializing_if = "Option::is_none", default)]
    b: Option<u8>,
    #[serde(default)]
    c: String,
}
#[derive(Clone, Serialize, Deserialize)]
#[serde(transparent)]
pub struct ZTransparent {
    inner: Vec<u16>,
}
#[derive(Clone, Serialize, Deserialize)]
pub struct ZGeneric<T = u8> {
    value: T,
    r#type_: T,
}
pub type ZGen = ZGeneric<u8>;
#[derive(Clone, Serialize, Deserialize)]
pub struct ZHold(Vec<Held>);
#[derive(Serialize, Deserialize)]
pub struct ZHolder {
    ext: Box<dyn ZExt>,
    int: Box<dyn ZInt>,
    adj: Box<dyn ZAdj>,
    opt: Option<Box<dyn ZInt>>,
    map: BTreeMap<String, Box<dyn ZDef>>,
}
#[derive(Serialize, Deserialize)]
pub enum Held {
    Ext(Box<dyn ZExt>),
    Int { v: Box<dyn ZInt> },
    Adj(u8, Box<dyn ZAdj>),
}
/// transparent around another trait object
#[derive(Serialize, Deserialize)]
pub struct ZWrapInt(Box<dyn ZInt>);
#[derive(Serialize, Deserialize)]
pub struct ZWrapAdj(Box<dyn ZAdj>);
#[derive(Serialize, Deserialize)]
pub struct ZWrapExt(Box<dyn ZExt>);

fn copy<T: ?Sized>(x: &Box<T>) -> Box<T>
where
    Box<T>: Serialize + for<'de> Deserialize<'de>,
{
    // test values are small: through the reference format without types
    let r = crate::rec::Rec::new(true, None);
    x.serialize(r.clone()).unwrap();
    let t = crate::strict::Tape::new(r.out().toks, true);
    Box::<T>::deserialize(crate::strict::Strict(t)).expect("copy")
}
impl Clone for ZHolder {
    fn clone(&self) -> Self {
        ZHolder {
            ext: copy(&self.ext),
            int: copy(&self.int),
            adj: copy(&self.adj),
            opt: self.opt.as_ref().map(copy),
            map: self.map.iter().map(|(k, v)| (k.clone(), copy(v))).collect(),
        }
    }
}
impl Clone for Held {
    fn clone(&self) -> Self {
        match self {
            Held::Ext(x) => Held::Ext(copy(x)),
            Held::Int { v } => Held::Int { v: copy(v) },
            Held::Adj(n, x) => Held::Adj(*n, copy(x)),
        }
    }
}
impl Clone for ZWrapInt {
    fn clone(&self) -> Self {
        ZWrapInt(copy(&self.0))
    }
}
impl Clone for ZWrapAdj {
    fn clone(&self) -> Self {
        ZWrapAdj(copy(&self.0))
    }
}
impl Clone for ZWrapExt {
    fn clone(&self) -> Self {
        ZWrapExt(copy(&self.0))
    }
}

fn v4(r: &mut Rng) -> Ipv4Addr {
    Ipv4Addr::new(10, 0, 0, r.below(256) as u8)
}
fn ip(r: &mut Rng) -> IpAddr {
    if r.flip() {
        v4(r).into()
    } else {
        Ipv6Addr::new(0xfe80, 0, 0, 0, 0, 0, 0, r.below(9) as u16).into()
    }
}
fn point(r: &mut Rng) -> ZPoint {
    ZPoint {
        x: r.int() as i32,
        y: r.int() as i32,
    }
}
fn zenum(r: &mut Rng) -> ZEnum {
    match r.below(5) {
        0 => ZEnum::U,
        1 => ZEnum::N(r.int() as i16),
        2 => ZEnum::T(r.int() as u8, r.text()),
        _ => ZEnum::S {
            a: r.flip().then(|| r.int() as i32),
            b: (0..r.below(2)).map(|_| zenum(r)).collect(),
        },
    }
}
fn list<T>(r: &mut Rng, f: fn(&mut Rng) -> T) -> Vec<T> {
    (0..r.below(4)).map(|_| f(r)).collect()
}
fn leaf_int(r: &mut Rng) -> Box<dyn ZInt> {
    match r.below(5) {
        0 => Box::new(ZUnit),
        1 => Box::new(point(r)),
        2 => Box::new(ZNew(r.text())),
        3 => Box::new(zenum(r)),
        _ => Box::new(ZOpt(r.flip().then(|| point(r)))),
    }
}
fn leaf_ext(r: &mut Rng) -> Box<dyn ZExt> {
    match r.below(4) {
        0 => Box::new(ZUnit),
        1 => Box::new(point(r)),
        2 => Box::new(ZNew(r.text())),
        _ => Box::new(ZHold(vec![Held::Int { v: leaf_int(r) }])),
    }
}
fn leaf_adj(r: &mut Rng) -> Box<dyn ZAdj> {
    match r.below(4) {
        0 => Box::new(ZUnit),
        1 => Box::new(ZNewNum(r.int())),
        2 => Box::new(ZVec(list(r, zenum))),
        _ => Box::new(ZWrapInt(leaf_int(r))),
    }
}
fn leaf_def(r: &mut Rng) -> Box<dyn ZDef> {
    match r.below(3) {
        0 => Box::new(point(r)),
        1 => Box::new(ZWrapAdj(leaf_adj(r))),
        _ => Box::new(ZWrapExt(leaf_ext(r))),
    }
}

zoo! {
    ZUnit = |_| ZUnit;
    ZNew = |r| ZNew(r.text());
    ZNewNum = |r| ZNewNum(r.int());
    ZNewFloat = |r| ZNewFloat(r.float());
    ZPair = |r| ZPair(r.int() as u8, r.flip().then(|| r.text()));
    ZPoint = point;
    ZDeny = |r| ZDeny { first_field: r.int() as u16, second_field: r.flip().then(|| r.int() as u128) };
    ZNested = |r| ZNested {
        list: list(r, |r| r.flip().then(|| point(r))),
        map: list(r, |r| (r.text(), zenum(r))).into_iter().collect(),
        tup: (r.flip(), 'ü', r.float() as f32),
    };
    ZEnum = zenum;
    ZVec = |r| ZVec(list(r, zenum));
    ZMap = |r| ZMap(list(r, |r| (format!("m{}", r.text()), r.next())).into_iter().collect());
    ZIntMap = |r| ZIntMap { m: list(r, |r| (r.int() as i32, r.text())).into_iter().collect() };
    ZTopIntMap = |r| ZTopIntMap(list(r, |r| (r.int() as i32, r.text())).into_iter().collect());
    ZBoolMap = |r| ZBoolMap(list(r, |r| (r.flip(), r.int() as u8)).into_iter().collect());
    ZOpt = |r| ZOpt(r.flip().then(|| point(r)));
    ZOptVec = |r| ZOptVec(r.flip().then(|| list(r, |r| r.flip().then(|| r.int() as u8))));
    ZAddr = |r| ZAddr {
        ip: ip(r), more: list(r, ip), opt: r.flip().then(|| ip(r)),
        map: list(r, |r| (r.text(), ip(r))).into_iter().collect(),
    };
    ZTopAddr = |r| ZTopAddr(ip(r));
    ZOptAddr = |r| ZOptAddr(r.flip().then(|| ip(r)));
    ZAddrMap = |r| ZAddrMap(list(r, |r| (v4(r), r.int() as u8)).into_iter().collect());
    ZAddrEnum = |r| match r.below(3) {
        0 => ZAddrEnum::N(v4(r)),
        1 => ZAddrEnum::T(v4(r), Ipv6Addr::LOCALHOST),
        _ => ZAddrEnum::S { a: Ipv6Addr::LOCALHOST },
    };
    ZAddrTuple = |r| ZAddrTuple(v4(r), (v4(r), [v4(r), v4(r)]));
    ZStd = |r| ZStd {
        d: Duration::new(r.below(1000) as u64, 5), n: NonZeroU32::new(7).unwrap(), r: 1..9,
        s: r.text().chars().collect(), c: Cow::Owned(r.text()), b: vec![-1, 2].into(), a: [1, 2, 3],
        res: if r.flip() { Ok(1) } else { Err(r.text()) },
    };
    ZWide = |r| ZWide { a: r.next() as u128, b: r.int() as i128, c: list(r, |r| r.next() as u128) };
    ZFlat = |r| ZFlat { a: r.int() as u8, rest: list(r, |r| (format!("x{}", r.below(9)), r.int())).into_iter().collect() };
    ZInner = |r| ZInner {
        e: match r.below(3) { 0 => ZTagged::A { x: 3 }, 1 => ZTagged::B(point(r)), _ => ZTagged::C },
        u: match r.below(3) { 0 => ZUntagged::N(r.int() as i32), 1 => ZUntagged::S(r.text()), _ => ZUntagged::P { x: 1, y: 2 } },
    };
    ZTagged = |r| match r.below(3) { 0 => ZTagged::A { x: 3 }, 1 => ZTagged::B(point(r)), _ => ZTagged::C };
    ZSkip = |r| ZSkip { a: 1, b: r.flip().then_some(5), c: r.text() };
    ZTransparent = |r| ZTransparent { inner: list(r, |r| r.int() as u16) };
    ZGen = |r| ZGeneric { value: r.int() as u8, type_: 3 };
    ZHold = |r| ZHold(list(r, |r| match r.below(3) {
        0 => Held::Ext(leaf_ext(r)), 1 => Held::Int { v: leaf_int(r) }, _ => Held::Adj(9, leaf_adj(r)),
    }));
    ZHolder = |r| ZHolder {
        ext: leaf_ext(r), int: leaf_int(r), adj: leaf_adj(r), opt: r.flip().then(|| leaf_int(r)),
        map: list(r, |r| (r.text(), leaf_def(r))).into_iter().collect(),
    };
    ZWrapInt = |r| ZWrapInt(leaf_int(r));
    ZWrapAdj = |r| ZWrapAdj(leaf_adj(r));
    ZWrapExt = |r| ZWrapExt(leaf_ext(r));
}
