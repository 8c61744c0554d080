// Generated by tools/gen_cfg.py; do not edit.

use crate::node::Node;
use crate::slow;
use serde::{Deserialize, Deserializer, Serialize, Serializer};

/// What every implementation can tell about itself.
pub trait Obj {
    fn who(&self) -> &'static str;
    fn node(&self) -> &Node;
}

pub const KONST: &str = "K";

#[macro_export]
macro_rules! concrete {
    ($($t:ident)*) => {$(
        pub struct $t(pub $crate::node::Node);
        impl serde::Serialize for $t {
            fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                self.0.serialize(s)
            }
        }
        impl From<$crate::node::Node> for $t {
            fn from(n: $crate::node::Node) -> Self { $t(n) }
        }
        impl<'de> serde::Deserialize<'de> for $t {
            fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                $crate::schema::read_top(d).map($t)
            }
        }
        impl $crate::traits::Obj for $t {
            fn who(&self) -> &'static str { stringify!($t) }
            fn node(&self) -> &$crate::node::Node { &self.0 }
        }
    )*}
}
concrete! { A B C Value Empty Uni Konst Cat Dup1 Dup2 Trip1 Trip2 Trip3 Quad1 Quad2 Quad3 Quad4 DupX1 Only }

thread_local! {
    static LAST: std::cell::Cell<Option<&'static Node>> = const { std::cell::Cell::new(None) };
}

/// A type without size; what it stands for is kept beside it, for as long as
/// no other is made.
pub struct Sizeless;
pub fn sizeless(n: Node) -> Sizeless {
    LAST.set(Some(Box::leak(Box::new(n))));
    Sizeless
}
/// A type larger and more strictly aligned than others.
#[repr(align(128))]
pub struct Wide(pub Node, pub [u64; 40]);
pub fn wide(n: Node) -> Wide {
    Wide(n, [0x5a5a; 40])
}
impl Serialize for Sizeless {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.node().serialize(s)
    }
}
impl<'de> Deserialize<'de> for Sizeless {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        crate::schema::read_top(d).map(sizeless)
    }
}
impl Obj for Sizeless {
    fn who(&self) -> &'static str {
        "Sizeless"
    }
    fn node(&self) -> &Node {
        LAST.get().unwrap()
    }
}
impl Serialize for Wide {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        assert!(self as *const Wide as usize % 128 == 0 && self.1 == [0x5a5a; 40]);
        self.node().serialize(s)
    }
}
impl<'de> Deserialize<'de> for Wide {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        crate::schema::read_top(d).map(wide)
    }
}
impl Obj for Wide {
    fn who(&self) -> &'static str {
        assert!(self as *const Wide as usize % 128 == 0 && self.1 == [0x5a5a; 40]);
        "Wide"
    }
    fn node(&self) -> &Node {
        &self.0
    }
}

/// A family of types for a trait with many implementations.
pub struct N<const I: usize>(pub Node);
impl<const I: usize> Serialize for N<I> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.0.serialize(s)
    }
}
impl<'de, const I: usize> Deserialize<'de> for N<I> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        crate::schema::read_top(d).map(N)
    }
}
impl<const I: usize> Obj for N<I> {
    fn who(&self) -> &'static str {
        crate::tok::intern(&format!("N::<{}>", I))
    }
    fn node(&self) -> &Node { &self.0 }
}

#[typetag::serde]
pub trait TExt0: Obj {}
#[typetag::serde]
impl TExt0 for A {}
#[typetag::serde(name = "B")]
impl TExt0 for B {}
#[typetag::serde]
impl TExt0 for C {}
#[typetag::serde(name = "value")]
impl TExt0 for Value {}
#[typetag::serde(name = "")]
impl TExt0 for Empty {}
#[typetag::serde(name = "ünï \"q\"\\\n%")]
impl TExt0 for Uni {}
#[typetag::serde(name = KONST)]
impl TExt0 for Konst {}
#[typetag::serde(name = concat!("ca", "t"))]
impl TExt0 for Cat {}
#[typetag::serde(name = "dup")]
impl TExt0 for Dup1 {}
#[typetag::serde(name = "dup")]
impl TExt0 for Dup2 {}
#[typetag::serde(name = "trip")]
impl TExt0 for Trip1 {}
#[typetag::serde(name = "trip")]
impl TExt0 for Trip2 {}
#[typetag::serde(name = "trip")]
impl TExt0 for Trip3 {}
#[typetag::serde(name = "quad")]
impl TExt0 for Quad1 {}
#[typetag::serde(name = "quad")]
impl TExt0 for Quad2 {}
#[typetag::serde(name = "quad")]
impl TExt0 for Quad3 {}
#[typetag::serde(name = "quad")]
impl TExt0 for Quad4 {}
#[typetag::serde(name = "dupx")]
impl TExt0 for DupX1 {}
#[typetag::serde(name = "sizeless")]
impl TExt0 for Sizeless {}
#[typetag::serde(name = "wide")]
impl TExt0 for Wide {}
#[typetag::serde(name = "only-ext0")]
impl TExt0 for Only {}

#[typetag::serde(tag = "type")]
pub trait TInt0: Obj {}
#[typetag::serde(name = "A")]
impl TInt0 for A {}
#[typetag::serde(name = "B")]
impl TInt0 for B {}
#[typetag::serde(name = "C")]
impl TInt0 for C {}
#[typetag::serde(name = "value")]
impl TInt0 for Value {}
#[typetag::serde(name = "")]
impl TInt0 for Empty {}
#[typetag::serde(name = "ünï \"q\"\\\n%")]
impl TInt0 for Uni {}
#[typetag::serde(name = KONST)]
impl TInt0 for Konst {}
#[typetag::serde(name = concat!("ca", "t"))]
impl TInt0 for Cat {}
#[typetag::serde(name = "dup")]
impl TInt0 for Dup1 {}
#[typetag::serde(name = "dup")]
impl TInt0 for Dup2 {}
#[typetag::serde(name = "trip")]
impl TInt0 for Trip1 {}
#[typetag::serde(name = "trip")]
impl TInt0 for Trip2 {}
#[typetag::serde(name = "trip")]
impl TInt0 for Trip3 {}
#[typetag::serde(name = "quad")]
impl TInt0 for Quad1 {}
#[typetag::serde(name = "quad")]
impl TInt0 for Quad2 {}
#[typetag::serde(name = "quad")]
impl TInt0 for Quad3 {}
#[typetag::serde(name = "quad")]
impl TInt0 for Quad4 {}
#[typetag::serde(name = "dupx")]
impl TInt0 for DupX1 {}
#[typetag::serde(name = "sizeless")]
impl TInt0 for Sizeless {}
#[typetag::serde(name = "wide")]
impl TInt0 for Wide {}
#[typetag::serde(name = "only-int0")]
impl TInt0 for Only {}

#[typetag::serde(tag = "t", default_variant = "A")]
pub trait TInt1: Obj {}
#[typetag::serde]
impl TInt1 for A {}
#[typetag::serde(name = "B")]
impl TInt1 for B {}
#[typetag::serde]
impl TInt1 for C {}
#[typetag::serde(name = "value")]
impl TInt1 for Value {}
#[typetag::serde(name = "")]
impl TInt1 for Empty {}
#[typetag::serde(name = "ünï \"q\"\\\n%")]
impl TInt1 for Uni {}
#[typetag::serde(name = KONST)]
impl TInt1 for Konst {}
#[typetag::serde(name = concat!("ca", "t"))]
impl TInt1 for Cat {}
#[typetag::serde(name = "dup")]
impl TInt1 for Dup1 {}
#[typetag::serde(name = "dup")]
impl TInt1 for Dup2 {}
#[typetag::serde(name = "trip")]
impl TInt1 for Trip1 {}
#[typetag::serde(name = "trip")]
impl TInt1 for Trip2 {}
#[typetag::serde(name = "trip")]
impl TInt1 for Trip3 {}
#[typetag::serde(name = "quad")]
impl TInt1 for Quad1 {}
#[typetag::serde(name = "quad")]
impl TInt1 for Quad2 {}
#[typetag::serde(name = "quad")]
impl TInt1 for Quad3 {}
#[typetag::serde(name = "quad")]
impl TInt1 for Quad4 {}
#[typetag::serde(name = "dupx")]
impl TInt1 for DupX1 {}
#[typetag::serde(name = "sizeless")]
impl TInt1 for Sizeless {}
#[typetag::serde(name = "wide")]
impl TInt1 for Wide {}
#[typetag::serde(name = "only-int1")]
impl TInt1 for Only {}

#[typetag::serde(tag = "value")]
pub trait TInt2: Obj {}
#[typetag::serde(name = "A")]
impl TInt2 for A {}
#[typetag::serde(name = "B")]
impl TInt2 for B {}
#[typetag::serde(name = "C")]
impl TInt2 for C {}
#[typetag::serde(name = "value")]
impl TInt2 for Value {}
#[typetag::serde(name = "")]
impl TInt2 for Empty {}
#[typetag::serde(name = "ünï \"q\"\\\n%")]
impl TInt2 for Uni {}
#[typetag::serde(name = KONST)]
impl TInt2 for Konst {}
#[typetag::serde(name = concat!("ca", "t"))]
impl TInt2 for Cat {}
#[typetag::serde(name = "dup")]
impl TInt2 for Dup1 {}
#[typetag::serde(name = "dup")]
impl TInt2 for Dup2 {}
#[typetag::serde(name = "trip")]
impl TInt2 for Trip1 {}
#[typetag::serde(name = "trip")]
impl TInt2 for Trip2 {}
#[typetag::serde(name = "trip")]
impl TInt2 for Trip3 {}
#[typetag::serde(name = "quad")]
impl TInt2 for Quad1 {}
#[typetag::serde(name = "quad")]
impl TInt2 for Quad2 {}
#[typetag::serde(name = "quad")]
impl TInt2 for Quad3 {}
#[typetag::serde(name = "quad")]
impl TInt2 for Quad4 {}
#[typetag::serde(name = "dupx")]
impl TInt2 for DupX1 {}
#[typetag::serde(name = "sizeless")]
impl TInt2 for Sizeless {}
#[typetag::serde(name = "wide")]
impl TInt2 for Wide {}
#[typetag::serde(name = "only-int2")]
impl TInt2 for Only {}

#[typetag::serde(tag = "")]
pub trait TInt3: Obj {}
#[typetag::serde]
impl TInt3 for A {}
#[typetag::serde(name = "B")]
impl TInt3 for B {}
#[typetag::serde]
impl TInt3 for C {}
#[typetag::serde(name = "value")]
impl TInt3 for Value {}
#[typetag::serde(name = "")]
impl TInt3 for Empty {}
#[typetag::serde(name = "ünï \"q\"\\\n%")]
impl TInt3 for Uni {}
#[typetag::serde(name = KONST)]
impl TInt3 for Konst {}
#[typetag::serde(name = concat!("ca", "t"))]
impl TInt3 for Cat {}
#[typetag::serde(name = "dup")]
impl TInt3 for Dup1 {}
#[typetag::serde(name = "dup")]
impl TInt3 for Dup2 {}
#[typetag::serde(name = "trip")]
impl TInt3 for Trip1 {}
#[typetag::serde(name = "trip")]
impl TInt3 for Trip2 {}
#[typetag::serde(name = "trip")]
impl TInt3 for Trip3 {}
#[typetag::serde(name = "quad")]
impl TInt3 for Quad1 {}
#[typetag::serde(name = "quad")]
impl TInt3 for Quad2 {}
#[typetag::serde(name = "quad")]
impl TInt3 for Quad3 {}
#[typetag::serde(name = "quad")]
impl TInt3 for Quad4 {}
#[typetag::serde(name = "dupx")]
impl TInt3 for DupX1 {}
#[typetag::serde(name = "sizeless")]
impl TInt3 for Sizeless {}
#[typetag::serde(name = "wide")]
impl TInt3 for Wide {}
#[typetag::serde(name = "only-int3")]
impl TInt3 for Only {}

#[typetag::serde(tag = "täg \"k\"")]
pub trait TInt4: Obj {}
#[typetag::serde(name = "A")]
impl TInt4 for A {}
#[typetag::serde(name = "B")]
impl TInt4 for B {}
#[typetag::serde(name = "C")]
impl TInt4 for C {}
#[typetag::serde(name = "value")]
impl TInt4 for Value {}
#[typetag::serde(name = "")]
impl TInt4 for Empty {}
#[typetag::serde(name = "ünï \"q\"\\\n%")]
impl TInt4 for Uni {}
#[typetag::serde(name = KONST)]
impl TInt4 for Konst {}
#[typetag::serde(name = concat!("ca", "t"))]
impl TInt4 for Cat {}
#[typetag::serde(name = "dup")]
impl TInt4 for Dup1 {}
#[typetag::serde(name = "dup")]
impl TInt4 for Dup2 {}
#[typetag::serde(name = "trip")]
impl TInt4 for Trip1 {}
#[typetag::serde(name = "trip")]
impl TInt4 for Trip2 {}
#[typetag::serde(name = "trip")]
impl TInt4 for Trip3 {}
#[typetag::serde(name = "quad")]
impl TInt4 for Quad1 {}
#[typetag::serde(name = "quad")]
impl TInt4 for Quad2 {}
#[typetag::serde(name = "quad")]
impl TInt4 for Quad3 {}
#[typetag::serde(name = "quad")]
impl TInt4 for Quad4 {}
#[typetag::serde(name = "dupx")]
impl TInt4 for DupX1 {}
#[typetag::serde(name = "sizeless")]
impl TInt4 for Sizeless {}
#[typetag::serde(name = "wide")]
impl TInt4 for Wide {}
#[typetag::serde(name = "only-int4")]
impl TInt4 for Only {}

#[typetag::serde(tag = "t", default_variant = "nope")]
pub trait TInt5: Obj {}
#[typetag::serde]
impl TInt5 for A {}
#[typetag::serde(name = "B")]
impl TInt5 for B {}
#[typetag::serde]
impl TInt5 for C {}
#[typetag::serde(name = "value")]
impl TInt5 for Value {}
#[typetag::serde(name = "")]
impl TInt5 for Empty {}
#[typetag::serde(name = "ünï \"q\"\\\n%")]
impl TInt5 for Uni {}
#[typetag::serde(name = KONST)]
impl TInt5 for Konst {}
#[typetag::serde(name = concat!("ca", "t"))]
impl TInt5 for Cat {}
#[typetag::serde(name = "dup")]
impl TInt5 for Dup1 {}
#[typetag::serde(name = "dup")]
impl TInt5 for Dup2 {}
#[typetag::serde(name = "trip")]
impl TInt5 for Trip1 {}
#[typetag::serde(name = "trip")]
impl TInt5 for Trip2 {}
#[typetag::serde(name = "trip")]
impl TInt5 for Trip3 {}
#[typetag::serde(name = "quad")]
impl TInt5 for Quad1 {}
#[typetag::serde(name = "quad")]
impl TInt5 for Quad2 {}
#[typetag::serde(name = "quad")]
impl TInt5 for Quad3 {}
#[typetag::serde(name = "quad")]
impl TInt5 for Quad4 {}
#[typetag::serde(name = "dupx")]
impl TInt5 for DupX1 {}
#[typetag::serde(name = "sizeless")]
impl TInt5 for Sizeless {}
#[typetag::serde(name = "wide")]
impl TInt5 for Wide {}
#[typetag::serde(name = "only-int5")]
impl TInt5 for Only {}

#[typetag::serde(tag = "t", default_variant = "dup")]
pub trait TInt6: Obj {}
#[typetag::serde(name = "A")]
impl TInt6 for A {}
#[typetag::serde(name = "B")]
impl TInt6 for B {}
#[typetag::serde(name = "C")]
impl TInt6 for C {}
#[typetag::serde(name = "value")]
impl TInt6 for Value {}
#[typetag::serde(name = "")]
impl TInt6 for Empty {}
#[typetag::serde(name = "ünï \"q\"\\\n%")]
impl TInt6 for Uni {}
#[typetag::serde(name = KONST)]
impl TInt6 for Konst {}
#[typetag::serde(name = concat!("ca", "t"))]
impl TInt6 for Cat {}
#[typetag::serde(name = "dup")]
impl TInt6 for Dup1 {}
#[typetag::serde(name = "dup")]
impl TInt6 for Dup2 {}
#[typetag::serde(name = "trip")]
impl TInt6 for Trip1 {}
#[typetag::serde(name = "trip")]
impl TInt6 for Trip2 {}
#[typetag::serde(name = "trip")]
impl TInt6 for Trip3 {}
#[typetag::serde(name = "quad")]
impl TInt6 for Quad1 {}
#[typetag::serde(name = "quad")]
impl TInt6 for Quad2 {}
#[typetag::serde(name = "quad")]
impl TInt6 for Quad3 {}
#[typetag::serde(name = "quad")]
impl TInt6 for Quad4 {}
#[typetag::serde(name = "dupx")]
impl TInt6 for DupX1 {}
#[typetag::serde(name = "sizeless")]
impl TInt6 for Sizeless {}
#[typetag::serde(name = "wide")]
impl TInt6 for Wide {}
#[typetag::serde(name = "only-int6")]
impl TInt6 for Only {}

#[typetag::serde(tag = "a")]
pub trait TInt7: Obj {}
#[typetag::serde]
impl TInt7 for C {}
#[typetag::serde(name = "value")]
impl TInt7 for Value {}
#[typetag::serde(name = "")]
impl TInt7 for Empty {}
#[typetag::serde(name = "ünï \"q\"\\\n%")]
impl TInt7 for Uni {}
#[typetag::serde(name = KONST)]
impl TInt7 for Konst {}
#[typetag::serde(name = concat!("ca", "t"))]
impl TInt7 for Cat {}
#[typetag::serde(name = "dup")]
impl TInt7 for Dup1 {}
#[typetag::serde(name = "dup")]
impl TInt7 for Dup2 {}
#[typetag::serde(name = "trip")]
impl TInt7 for Trip1 {}
#[typetag::serde(name = "trip")]
impl TInt7 for Trip2 {}
#[typetag::serde(name = "trip")]
impl TInt7 for Trip3 {}
#[typetag::serde(name = "quad")]
impl TInt7 for Quad1 {}
#[typetag::serde(name = "quad")]
impl TInt7 for Quad2 {}
#[typetag::serde(name = "quad")]
impl TInt7 for Quad3 {}
#[typetag::serde(name = "quad")]
impl TInt7 for Quad4 {}
#[typetag::serde(name = "dupx")]
impl TInt7 for DupX1 {}
#[typetag::serde(name = "sizeless")]
impl TInt7 for Sizeless {}
#[typetag::serde(name = "wide")]
impl TInt7 for Wide {}
#[typetag::serde(name = "only-int7")]
impl TInt7 for Only {}
#[typetag::serde(name = "B")]
impl TInt7 for A {}
#[typetag::serde(name = "A")]
impl TInt7 for B {}

#[typetag::serde(tag = "t", content = "c")]
pub trait TAdj0: Obj {}
#[typetag::serde(name = "A")]
impl TAdj0 for A {}
#[typetag::serde(name = "B")]
impl TAdj0 for B {}
#[typetag::serde(name = "C")]
impl TAdj0 for C {}
#[typetag::serde(name = "value")]
impl TAdj0 for Value {}
#[typetag::serde(name = "")]
impl TAdj0 for Empty {}
#[typetag::serde(name = "ünï \"q\"\\\n%")]
impl TAdj0 for Uni {}
#[typetag::serde(name = KONST)]
impl TAdj0 for Konst {}
#[typetag::serde(name = concat!("ca", "t"))]
impl TAdj0 for Cat {}
#[typetag::serde(name = "dup")]
impl TAdj0 for Dup1 {}
#[typetag::serde(name = "dup")]
impl TAdj0 for Dup2 {}
#[typetag::serde(name = "trip")]
impl TAdj0 for Trip1 {}
#[typetag::serde(name = "trip")]
impl TAdj0 for Trip2 {}
#[typetag::serde(name = "trip")]
impl TAdj0 for Trip3 {}
#[typetag::serde(name = "quad")]
impl TAdj0 for Quad1 {}
#[typetag::serde(name = "quad")]
impl TAdj0 for Quad2 {}
#[typetag::serde(name = "quad")]
impl TAdj0 for Quad3 {}
#[typetag::serde(name = "quad")]
impl TAdj0 for Quad4 {}
#[typetag::serde(name = "dupx")]
impl TAdj0 for DupX1 {}
#[typetag::serde(name = "sizeless")]
impl TAdj0 for Sizeless {}
#[typetag::serde(name = "wide")]
impl TAdj0 for Wide {}
#[typetag::serde(name = "only-adj0")]
impl TAdj0 for Only {}

#[typetag::serde(tag = "t", content = "c", default_variant = "A")]
pub trait TAdj1: Obj {}
#[typetag::serde]
impl TAdj1 for A {}
#[typetag::serde(name = "B")]
impl TAdj1 for B {}
#[typetag::serde]
impl TAdj1 for C {}
#[typetag::serde(name = "value")]
impl TAdj1 for Value {}
#[typetag::serde(name = "")]
impl TAdj1 for Empty {}
#[typetag::serde(name = "ünï \"q\"\\\n%")]
impl TAdj1 for Uni {}
#[typetag::serde(name = KONST)]
impl TAdj1 for Konst {}
#[typetag::serde(name = concat!("ca", "t"))]
impl TAdj1 for Cat {}
#[typetag::serde(name = "dup")]
impl TAdj1 for Dup1 {}
#[typetag::serde(name = "dup")]
impl TAdj1 for Dup2 {}
#[typetag::serde(name = "trip")]
impl TAdj1 for Trip1 {}
#[typetag::serde(name = "trip")]
impl TAdj1 for Trip2 {}
#[typetag::serde(name = "trip")]
impl TAdj1 for Trip3 {}
#[typetag::serde(name = "quad")]
impl TAdj1 for Quad1 {}
#[typetag::serde(name = "quad")]
impl TAdj1 for Quad2 {}
#[typetag::serde(name = "quad")]
impl TAdj1 for Quad3 {}
#[typetag::serde(name = "quad")]
impl TAdj1 for Quad4 {}
#[typetag::serde(name = "dupx")]
impl TAdj1 for DupX1 {}
#[typetag::serde(name = "sizeless")]
impl TAdj1 for Sizeless {}
#[typetag::serde(name = "wide")]
impl TAdj1 for Wide {}
#[typetag::serde(name = "only-adj1")]
impl TAdj1 for Only {}

#[typetag::serde(tag = "t", content = "c", deny_unknown_fields)]
pub trait TAdj2: Obj {}
#[typetag::serde(name = "A")]
impl TAdj2 for A {}
#[typetag::serde(name = "B")]
impl TAdj2 for B {}
#[typetag::serde(name = "C")]
impl TAdj2 for C {}
#[typetag::serde(name = "value")]
impl TAdj2 for Value {}
#[typetag::serde(name = "")]
impl TAdj2 for Empty {}
#[typetag::serde(name = "ünï \"q\"\\\n%")]
impl TAdj2 for Uni {}
#[typetag::serde(name = KONST)]
impl TAdj2 for Konst {}
#[typetag::serde(name = concat!("ca", "t"))]
impl TAdj2 for Cat {}
#[typetag::serde(name = "dup")]
impl TAdj2 for Dup1 {}
#[typetag::serde(name = "dup")]
impl TAdj2 for Dup2 {}
#[typetag::serde(name = "trip")]
impl TAdj2 for Trip1 {}
#[typetag::serde(name = "trip")]
impl TAdj2 for Trip2 {}
#[typetag::serde(name = "trip")]
impl TAdj2 for Trip3 {}
#[typetag::serde(name = "quad")]
impl TAdj2 for Quad1 {}
#[typetag::serde(name = "quad")]
impl TAdj2 for Quad2 {}
#[typetag::serde(name = "quad")]
impl TAdj2 for Quad3 {}
#[typetag::serde(name = "quad")]
impl TAdj2 for Quad4 {}
#[typetag::serde(name = "dupx")]
impl TAdj2 for DupX1 {}
#[typetag::serde(name = "sizeless")]
impl TAdj2 for Sizeless {}
#[typetag::serde(name = "wide")]
impl TAdj2 for Wide {}
#[typetag::serde(name = "only-adj2")]
impl TAdj2 for Only {}

#[typetag::serde(tag = "t", content = "c", default_variant = "A", deny_unknown_fields)]
pub trait TAdj3: Obj {}
#[typetag::serde]
impl TAdj3 for A {}
#[typetag::serde(name = "B")]
impl TAdj3 for B {}
#[typetag::serde]
impl TAdj3 for C {}
#[typetag::serde(name = "value")]
impl TAdj3 for Value {}
#[typetag::serde(name = "")]
impl TAdj3 for Empty {}
#[typetag::serde(name = "ünï \"q\"\\\n%")]
impl TAdj3 for Uni {}
#[typetag::serde(name = KONST)]
impl TAdj3 for Konst {}
#[typetag::serde(name = concat!("ca", "t"))]
impl TAdj3 for Cat {}
#[typetag::serde(name = "dup")]
impl TAdj3 for Dup1 {}
#[typetag::serde(name = "dup")]
impl TAdj3 for Dup2 {}
#[typetag::serde(name = "trip")]
impl TAdj3 for Trip1 {}
#[typetag::serde(name = "trip")]
impl TAdj3 for Trip2 {}
#[typetag::serde(name = "trip")]
impl TAdj3 for Trip3 {}
#[typetag::serde(name = "quad")]
impl TAdj3 for Quad1 {}
#[typetag::serde(name = "quad")]
impl TAdj3 for Quad2 {}
#[typetag::serde(name = "quad")]
impl TAdj3 for Quad3 {}
#[typetag::serde(name = "quad")]
impl TAdj3 for Quad4 {}
#[typetag::serde(name = "dupx")]
impl TAdj3 for DupX1 {}
#[typetag::serde(name = "sizeless")]
impl TAdj3 for Sizeless {}
#[typetag::serde(name = "wide")]
impl TAdj3 for Wide {}
#[typetag::serde(name = "only-adj3")]
impl TAdj3 for Only {}

#[typetag::serde(tag = "t", content = "c", deny_unknown_fields, default_variant = "B")]
pub trait TAdj4: Obj {}
#[typetag::serde(name = "A")]
impl TAdj4 for A {}
#[typetag::serde(name = "B")]
impl TAdj4 for B {}
#[typetag::serde(name = "C")]
impl TAdj4 for C {}
#[typetag::serde(name = "value")]
impl TAdj4 for Value {}
#[typetag::serde(name = "")]
impl TAdj4 for Empty {}
#[typetag::serde(name = "ünï \"q\"\\\n%")]
impl TAdj4 for Uni {}
#[typetag::serde(name = KONST)]
impl TAdj4 for Konst {}
#[typetag::serde(name = concat!("ca", "t"))]
impl TAdj4 for Cat {}
#[typetag::serde(name = "dup")]
impl TAdj4 for Dup1 {}
#[typetag::serde(name = "dup")]
impl TAdj4 for Dup2 {}
#[typetag::serde(name = "trip")]
impl TAdj4 for Trip1 {}
#[typetag::serde(name = "trip")]
impl TAdj4 for Trip2 {}
#[typetag::serde(name = "trip")]
impl TAdj4 for Trip3 {}
#[typetag::serde(name = "quad")]
impl TAdj4 for Quad1 {}
#[typetag::serde(name = "quad")]
impl TAdj4 for Quad2 {}
#[typetag::serde(name = "quad")]
impl TAdj4 for Quad3 {}
#[typetag::serde(name = "quad")]
impl TAdj4 for Quad4 {}
#[typetag::serde(name = "dupx")]
impl TAdj4 for DupX1 {}
#[typetag::serde(name = "sizeless")]
impl TAdj4 for Sizeless {}
#[typetag::serde(name = "wide")]
impl TAdj4 for Wide {}
#[typetag::serde(name = "only-adj4")]
impl TAdj4 for Only {}

#[typetag::serde(tag = "t", content = "c", default_variant = "nope")]
pub trait TAdj5: Obj {}
#[typetag::serde]
impl TAdj5 for A {}
#[typetag::serde(name = "B")]
impl TAdj5 for B {}
#[typetag::serde]
impl TAdj5 for C {}
#[typetag::serde(name = "value")]
impl TAdj5 for Value {}
#[typetag::serde(name = "")]
impl TAdj5 for Empty {}
#[typetag::serde(name = "ünï \"q\"\\\n%")]
impl TAdj5 for Uni {}
#[typetag::serde(name = KONST)]
impl TAdj5 for Konst {}
#[typetag::serde(name = concat!("ca", "t"))]
impl TAdj5 for Cat {}
#[typetag::serde(name = "dup")]
impl TAdj5 for Dup1 {}
#[typetag::serde(name = "dup")]
impl TAdj5 for Dup2 {}
#[typetag::serde(name = "trip")]
impl TAdj5 for Trip1 {}
#[typetag::serde(name = "trip")]
impl TAdj5 for Trip2 {}
#[typetag::serde(name = "trip")]
impl TAdj5 for Trip3 {}
#[typetag::serde(name = "quad")]
impl TAdj5 for Quad1 {}
#[typetag::serde(name = "quad")]
impl TAdj5 for Quad2 {}
#[typetag::serde(name = "quad")]
impl TAdj5 for Quad3 {}
#[typetag::serde(name = "quad")]
impl TAdj5 for Quad4 {}
#[typetag::serde(name = "dupx")]
impl TAdj5 for DupX1 {}
#[typetag::serde(name = "sizeless")]
impl TAdj5 for Sizeless {}
#[typetag::serde(name = "wide")]
impl TAdj5 for Wide {}
#[typetag::serde(name = "only-adj5")]
impl TAdj5 for Only {}

#[typetag::serde(tag = "c", content = "t")]
pub trait TAdj6: Obj {}
#[typetag::serde(name = "C")]
impl TAdj6 for C {}
#[typetag::serde(name = "value")]
impl TAdj6 for Value {}
#[typetag::serde(name = "")]
impl TAdj6 for Empty {}
#[typetag::serde(name = "ünï \"q\"\\\n%")]
impl TAdj6 for Uni {}
#[typetag::serde(name = KONST)]
impl TAdj6 for Konst {}
#[typetag::serde(name = concat!("ca", "t"))]
impl TAdj6 for Cat {}
#[typetag::serde(name = "dup")]
impl TAdj6 for Dup1 {}
#[typetag::serde(name = "dup")]
impl TAdj6 for Dup2 {}
#[typetag::serde(name = "trip")]
impl TAdj6 for Trip1 {}
#[typetag::serde(name = "trip")]
impl TAdj6 for Trip2 {}
#[typetag::serde(name = "trip")]
impl TAdj6 for Trip3 {}
#[typetag::serde(name = "quad")]
impl TAdj6 for Quad1 {}
#[typetag::serde(name = "quad")]
impl TAdj6 for Quad2 {}
#[typetag::serde(name = "quad")]
impl TAdj6 for Quad3 {}
#[typetag::serde(name = "quad")]
impl TAdj6 for Quad4 {}
#[typetag::serde(name = "dupx")]
impl TAdj6 for DupX1 {}
#[typetag::serde(name = "sizeless")]
impl TAdj6 for Sizeless {}
#[typetag::serde(name = "wide")]
impl TAdj6 for Wide {}
#[typetag::serde(name = "only-adj6")]
impl TAdj6 for Only {}
#[typetag::serde(name = "B")]
impl TAdj6 for A {}
#[typetag::serde(name = "A")]
impl TAdj6 for B {}

#[typetag::serde(tag = "value", content = "type")]
pub trait TAdj7: Obj {}
#[typetag::serde]
impl TAdj7 for A {}
#[typetag::serde(name = "B")]
impl TAdj7 for B {}
#[typetag::serde]
impl TAdj7 for C {}
#[typetag::serde(name = "value")]
impl TAdj7 for Value {}
#[typetag::serde(name = "")]
impl TAdj7 for Empty {}
#[typetag::serde(name = "ünï \"q\"\\\n%")]
impl TAdj7 for Uni {}
#[typetag::serde(name = KONST)]
impl TAdj7 for Konst {}
#[typetag::serde(name = concat!("ca", "t"))]
impl TAdj7 for Cat {}
#[typetag::serde(name = "dup")]
impl TAdj7 for Dup1 {}
#[typetag::serde(name = "dup")]
impl TAdj7 for Dup2 {}
#[typetag::serde(name = "trip")]
impl TAdj7 for Trip1 {}
#[typetag::serde(name = "trip")]
impl TAdj7 for Trip2 {}
#[typetag::serde(name = "trip")]
impl TAdj7 for Trip3 {}
#[typetag::serde(name = "quad")]
impl TAdj7 for Quad1 {}
#[typetag::serde(name = "quad")]
impl TAdj7 for Quad2 {}
#[typetag::serde(name = "quad")]
impl TAdj7 for Quad3 {}
#[typetag::serde(name = "quad")]
impl TAdj7 for Quad4 {}
#[typetag::serde(name = "dupx")]
impl TAdj7 for DupX1 {}
#[typetag::serde(name = "sizeless")]
impl TAdj7 for Sizeless {}
#[typetag::serde(name = "wide")]
impl TAdj7 for Wide {}
#[typetag::serde(name = "only-adj7")]
impl TAdj7 for Only {}

#[typetag::serde(tag = "", content = "täg \"k\"")]
pub trait TAdj8: Obj {}
#[typetag::serde(name = "A")]
impl TAdj8 for A {}
#[typetag::serde(name = "B")]
impl TAdj8 for B {}
#[typetag::serde(name = "C")]
impl TAdj8 for C {}
#[typetag::serde(name = "value")]
impl TAdj8 for Value {}
#[typetag::serde(name = "")]
impl TAdj8 for Empty {}
#[typetag::serde(name = "ünï \"q\"\\\n%")]
impl TAdj8 for Uni {}
#[typetag::serde(name = KONST)]
impl TAdj8 for Konst {}
#[typetag::serde(name = concat!("ca", "t"))]
impl TAdj8 for Cat {}
#[typetag::serde(name = "dup")]
impl TAdj8 for Dup1 {}
#[typetag::serde(name = "dup")]
impl TAdj8 for Dup2 {}
#[typetag::serde(name = "trip")]
impl TAdj8 for Trip1 {}
#[typetag::serde(name = "trip")]
impl TAdj8 for Trip2 {}
#[typetag::serde(name = "trip")]
impl TAdj8 for Trip3 {}
#[typetag::serde(name = "quad")]
impl TAdj8 for Quad1 {}
#[typetag::serde(name = "quad")]
impl TAdj8 for Quad2 {}
#[typetag::serde(name = "quad")]
impl TAdj8 for Quad3 {}
#[typetag::serde(name = "quad")]
impl TAdj8 for Quad4 {}
#[typetag::serde(name = "dupx")]
impl TAdj8 for DupX1 {}
#[typetag::serde(name = "sizeless")]
impl TAdj8 for Sizeless {}
#[typetag::serde(name = "wide")]
impl TAdj8 for Wide {}
#[typetag::serde(name = "only-adj8")]
impl TAdj8 for Only {}

#[typetag::serde(tag = "t", content = "c", default_variant = "dup")]
pub trait TAdj9: Obj {}
#[typetag::serde]
impl TAdj9 for A {}
#[typetag::serde(name = "B")]
impl TAdj9 for B {}
#[typetag::serde]
impl TAdj9 for C {}
#[typetag::serde(name = "value")]
impl TAdj9 for Value {}
#[typetag::serde(name = "")]
impl TAdj9 for Empty {}
#[typetag::serde(name = "ünï \"q\"\\\n%")]
impl TAdj9 for Uni {}
#[typetag::serde(name = KONST)]
impl TAdj9 for Konst {}
#[typetag::serde(name = concat!("ca", "t"))]
impl TAdj9 for Cat {}
#[typetag::serde(name = "dup")]
impl TAdj9 for Dup1 {}
#[typetag::serde(name = "dup")]
impl TAdj9 for Dup2 {}
#[typetag::serde(name = "trip")]
impl TAdj9 for Trip1 {}
#[typetag::serde(name = "trip")]
impl TAdj9 for Trip2 {}
#[typetag::serde(name = "trip")]
impl TAdj9 for Trip3 {}
#[typetag::serde(name = "quad")]
impl TAdj9 for Quad1 {}
#[typetag::serde(name = "quad")]
impl TAdj9 for Quad2 {}
#[typetag::serde(name = "quad")]
impl TAdj9 for Quad3 {}
#[typetag::serde(name = "quad")]
impl TAdj9 for Quad4 {}
#[typetag::serde(name = "dupx")]
impl TAdj9 for DupX1 {}
#[typetag::serde(name = "sizeless")]
impl TAdj9 for Sizeless {}
#[typetag::serde(name = "wide")]
impl TAdj9 for Wide {}
#[typetag::serde(name = "only-adj9")]
impl TAdj9 for Only {}

#[typetag::serialize(tag = "t")]
pub trait TSero: Obj {}
#[typetag::serialize(name = "A")]
impl TSero for A {}
#[typetag::serialize(name = "B")]
impl TSero for B {}
#[typetag::serialize(name = "C")]
impl TSero for C {}
#[typetag::serialize(name = "dup")]
impl TSero for Dup1 {}
#[typetag::serialize(name = "dup")]
impl TSero for Dup2 {}
#[typetag::serialize(name = KONST)]
impl TSero for Konst {}
#[typetag::serialize(name = "sizeless")]
impl TSero for Sizeless {}
#[typetag::serialize(name = "wide")]
impl TSero for Wide {}
#[typetag::serialize(name = "only-sero")]
impl TSero for Only {}

#[typetag::serialize]
pub trait TSerx: Obj {}
#[typetag::serialize]
impl TSerx for A {}
#[typetag::serialize(name = "B")]
impl TSerx for B {}
#[typetag::serialize]
impl TSerx for C {}
#[typetag::serialize(name = "dup")]
impl TSerx for Dup1 {}
#[typetag::serialize(name = "dup")]
impl TSerx for Dup2 {}
#[typetag::serialize(name = KONST)]
impl TSerx for Konst {}
#[typetag::serialize(name = "sizeless")]
impl TSerx for Sizeless {}
#[typetag::serialize(name = "wide")]
impl TSerx for Wide {}
#[typetag::serialize(name = "only-serx")]
impl TSerx for Only {}

#[typetag::serialize(tag = "t", content = "c")]
pub trait TSera: Obj {}
#[typetag::serialize(name = "A")]
impl TSera for A {}
#[typetag::serialize(name = "B")]
impl TSera for B {}
#[typetag::serialize(name = "C")]
impl TSera for C {}
#[typetag::serialize(name = "dup")]
impl TSera for Dup1 {}
#[typetag::serialize(name = "dup")]
impl TSera for Dup2 {}
#[typetag::serialize(name = KONST)]
impl TSera for Konst {}
#[typetag::serialize(name = "sizeless")]
impl TSera for Sizeless {}
#[typetag::serialize(name = "wide")]
impl TSera for Wide {}
#[typetag::serialize(name = "only-sera")]
impl TSera for Only {}

#[typetag::deserialize(tag = "t", default_variant = "B")]
pub trait TDeo: Obj {}
#[typetag::deserialize]
impl TDeo for A {}
#[typetag::deserialize(name = "B")]
impl TDeo for B {}
#[typetag::deserialize]
impl TDeo for C {}
#[typetag::deserialize(name = "dup")]
impl TDeo for Dup1 {}
#[typetag::deserialize(name = "dup")]
impl TDeo for Dup2 {}
#[typetag::deserialize(name = KONST)]
impl TDeo for Konst {}
#[typetag::deserialize(name = "sizeless")]
impl TDeo for Sizeless {}
#[typetag::deserialize(name = "wide")]
impl TDeo for Wide {}
#[typetag::deserialize(name = "only-deo")]
impl TDeo for Only {}

#[typetag::deserialize]
pub trait TDex: Obj {}
#[typetag::deserialize(name = "A")]
impl TDex for A {}
#[typetag::deserialize(name = "B")]
impl TDex for B {}
#[typetag::deserialize(name = "C")]
impl TDex for C {}
#[typetag::deserialize(name = "dup")]
impl TDex for Dup1 {}
#[typetag::deserialize(name = "dup")]
impl TDex for Dup2 {}
#[typetag::deserialize(name = KONST)]
impl TDex for Konst {}
#[typetag::deserialize(name = "sizeless")]
impl TDex for Sizeless {}
#[typetag::deserialize(name = "wide")]
impl TDex for Wide {}
#[typetag::deserialize(name = "only-dex")]
impl TDex for Only {}

#[typetag::deserialize(tag = "t", content = "c")]
pub trait TDea: Obj {}
#[typetag::deserialize]
impl TDea for A {}
#[typetag::deserialize(name = "B")]
impl TDea for B {}
#[typetag::deserialize]
impl TDea for C {}
#[typetag::deserialize(name = "dup")]
impl TDea for Dup1 {}
#[typetag::deserialize(name = "dup")]
impl TDea for Dup2 {}
#[typetag::deserialize(name = KONST)]
impl TDea for Konst {}
#[typetag::deserialize(name = "sizeless")]
impl TDea for Sizeless {}
#[typetag::deserialize(name = "wide")]
impl TDea for Wide {}
#[typetag::deserialize(name = "only-dea")]
impl TDea for Only {}

#[typetag::serde(tag = "t")]
pub trait TBig: Obj {}
#[typetag::serde(name = "n000")]
impl TBig for N<0> {}
#[typetag::serde(name = "n001")]
impl TBig for N<1> {}
#[typetag::serde(name = "n002")]
impl TBig for N<2> {}
#[typetag::serde(name = "n003")]
impl TBig for N<3> {}
#[typetag::serde(name = "n004")]
impl TBig for N<4> {}
#[typetag::serde(name = "n005")]
impl TBig for N<5> {}
#[typetag::serde(name = "n006")]
impl TBig for N<6> {}
#[typetag::serde(name = "n007")]
impl TBig for N<7> {}
#[typetag::serde(name = "n008")]
impl TBig for N<8> {}
#[typetag::serde(name = "n009")]
impl TBig for N<9> {}
#[typetag::serde(name = "n010")]
impl TBig for N<10> {}
#[typetag::serde(name = "n011")]
impl TBig for N<11> {}
#[typetag::serde(name = "n012")]
impl TBig for N<12> {}
#[typetag::serde(name = "n013")]
impl TBig for N<13> {}
#[typetag::serde(name = "n014")]
impl TBig for N<14> {}
#[typetag::serde(name = "n015")]
impl TBig for N<15> {}
#[typetag::serde(name = "n016")]
impl TBig for N<16> {}
#[typetag::serde(name = "n017")]
impl TBig for N<17> {}
#[typetag::serde(name = "n018")]
impl TBig for N<18> {}
#[typetag::serde(name = "n019")]
impl TBig for N<19> {}
#[typetag::serde(name = "n020")]
impl TBig for N<20> {}
#[typetag::serde(name = "n021")]
impl TBig for N<21> {}
#[typetag::serde(name = "n022")]
impl TBig for N<22> {}
#[typetag::serde(name = "n023")]
impl TBig for N<23> {}
#[typetag::serde(name = "n024")]
impl TBig for N<24> {}
#[typetag::serde(name = "n025")]
impl TBig for N<25> {}
#[typetag::serde(name = "n026")]
impl TBig for N<26> {}
#[typetag::serde(name = "n027")]
impl TBig for N<27> {}
#[typetag::serde(name = "n028")]
impl TBig for N<28> {}
#[typetag::serde(name = "n029")]
impl TBig for N<29> {}
#[typetag::serde(name = "n030")]
impl TBig for N<30> {}
#[typetag::serde(name = "n031")]
impl TBig for N<31> {}
#[typetag::serde(name = "n032")]
impl TBig for N<32> {}
#[typetag::serde(name = "n033")]
impl TBig for N<33> {}
#[typetag::serde(name = "n034")]
impl TBig for N<34> {}
#[typetag::serde(name = "n035")]
impl TBig for N<35> {}
#[typetag::serde(name = "n036")]
impl TBig for N<36> {}
#[typetag::serde(name = "n037")]
impl TBig for N<37> {}
#[typetag::serde(name = "n038")]
impl TBig for N<38> {}
#[typetag::serde(name = "n039")]
impl TBig for N<39> {}
#[typetag::serde(name = "n040")]
impl TBig for N<40> {}
#[typetag::serde(name = "n041")]
impl TBig for N<41> {}
#[typetag::serde(name = "n042")]
impl TBig for N<42> {}
#[typetag::serde(name = "n043")]
impl TBig for N<43> {}
#[typetag::serde(name = "n044")]
impl TBig for N<44> {}
#[typetag::serde(name = "n045")]
impl TBig for N<45> {}
#[typetag::serde(name = "n046")]
impl TBig for N<46> {}
#[typetag::serde(name = "n047")]
impl TBig for N<47> {}
#[typetag::serde(name = "n048")]
impl TBig for N<48> {}
#[typetag::serde(name = "n049")]
impl TBig for N<49> {}
#[typetag::serde(name = "n050")]
impl TBig for N<50> {}
#[typetag::serde(name = "n051")]
impl TBig for N<51> {}
#[typetag::serde(name = "n052")]
impl TBig for N<52> {}
#[typetag::serde(name = "n053")]
impl TBig for N<53> {}
#[typetag::serde(name = "n054")]
impl TBig for N<54> {}
#[typetag::serde(name = "n055")]
impl TBig for N<55> {}
#[typetag::serde(name = "n056")]
impl TBig for N<56> {}
#[typetag::serde(name = "n057")]
impl TBig for N<57> {}
#[typetag::serde(name = "n058")]
impl TBig for N<58> {}
#[typetag::serde(name = "n059")]
impl TBig for N<59> {}
#[typetag::serde(name = "n060")]
impl TBig for N<60> {}
#[typetag::serde(name = "n061")]
impl TBig for N<61> {}
#[typetag::serde(name = "n062")]
impl TBig for N<62> {}
#[typetag::serde(name = "n063")]
impl TBig for N<63> {}
#[typetag::serde(name = "n064")]
impl TBig for N<64> {}
#[typetag::serde(name = "n065")]
impl TBig for N<65> {}
#[typetag::serde(name = "n066")]
impl TBig for N<66> {}
#[typetag::serde(name = "n067")]
impl TBig for N<67> {}
#[typetag::serde(name = "n068")]
impl TBig for N<68> {}
#[typetag::serde(name = "n069")]
impl TBig for N<69> {}
#[typetag::serde(name = "n070")]
impl TBig for N<70> {}
#[typetag::serde(name = "n071")]
impl TBig for N<71> {}
#[typetag::serde(name = "n072")]
impl TBig for N<72> {}
#[typetag::serde(name = "n073")]
impl TBig for N<73> {}
#[typetag::serde(name = "n074")]
impl TBig for N<74> {}
#[typetag::serde(name = "n075")]
impl TBig for N<75> {}
#[typetag::serde(name = "n076")]
impl TBig for N<76> {}
#[typetag::serde(name = "n077")]
impl TBig for N<77> {}
#[typetag::serde(name = "n078")]
impl TBig for N<78> {}
#[typetag::serde(name = "n079")]
impl TBig for N<79> {}
#[typetag::serde(name = "n080")]
impl TBig for N<80> {}
#[typetag::serde(name = "n081")]
impl TBig for N<81> {}
#[typetag::serde(name = "n082")]
impl TBig for N<82> {}
#[typetag::serde(name = "n083")]
impl TBig for N<83> {}
#[typetag::serde(name = "n084")]
impl TBig for N<84> {}
#[typetag::serde(name = "n085")]
impl TBig for N<85> {}
#[typetag::serde(name = "n086")]
impl TBig for N<86> {}
#[typetag::serde(name = "n087")]
impl TBig for N<87> {}
#[typetag::serde(name = "n088")]
impl TBig for N<88> {}
#[typetag::serde(name = "n089")]
impl TBig for N<89> {}
#[typetag::serde(name = "n090")]
impl TBig for N<90> {}
#[typetag::serde(name = "n091")]
impl TBig for N<91> {}
#[typetag::serde(name = "n092")]
impl TBig for N<92> {}
#[typetag::serde(name = "n093")]
impl TBig for N<93> {}
#[typetag::serde(name = "n094")]
impl TBig for N<94> {}
#[typetag::serde(name = "n095")]
impl TBig for N<95> {}
#[typetag::serde(name = "n096")]
impl TBig for N<96> {}
#[typetag::serde(name = "n097")]
impl TBig for N<97> {}
#[typetag::serde(name = "n098")]
impl TBig for N<98> {}
#[typetag::serde(name = "n099")]
impl TBig for N<99> {}
#[typetag::serde(name = "n100")]
impl TBig for N<100> {}
#[typetag::serde(name = "n101")]
impl TBig for N<101> {}
#[typetag::serde(name = "n102")]
impl TBig for N<102> {}
#[typetag::serde(name = "n103")]
impl TBig for N<103> {}
#[typetag::serde(name = "n104")]
impl TBig for N<104> {}
#[typetag::serde(name = "n105")]
impl TBig for N<105> {}
#[typetag::serde(name = "n106")]
impl TBig for N<106> {}
#[typetag::serde(name = "n107")]
impl TBig for N<107> {}
#[typetag::serde(name = "n108")]
impl TBig for N<108> {}
#[typetag::serde(name = "n109")]
impl TBig for N<109> {}
#[typetag::serde(name = "n110")]
impl TBig for N<110> {}
#[typetag::serde(name = "n111")]
impl TBig for N<111> {}
#[typetag::serde(name = "n112")]
impl TBig for N<112> {}
#[typetag::serde(name = "n113")]
impl TBig for N<113> {}
#[typetag::serde(name = "n114")]
impl TBig for N<114> {}
#[typetag::serde(name = "n115")]
impl TBig for N<115> {}
#[typetag::serde(name = "n116")]
impl TBig for N<116> {}
#[typetag::serde(name = "n117")]
impl TBig for N<117> {}
#[typetag::serde(name = "n118")]
impl TBig for N<118> {}
#[typetag::serde(name = "n119")]
impl TBig for N<119> {}
#[typetag::serde(name = "n120")]
impl TBig for N<120> {}
#[typetag::serde(name = "n121")]
impl TBig for N<121> {}
#[typetag::serde(name = "n122")]
impl TBig for N<122> {}
#[typetag::serde(name = "n123")]
impl TBig for N<123> {}
#[typetag::serde(name = "n124")]
impl TBig for N<124> {}
#[typetag::serde(name = "n125")]
impl TBig for N<125> {}
#[typetag::serde(name = "n126")]
impl TBig for N<126> {}
#[typetag::serde(name = "n127")]
impl TBig for N<127> {}
#[typetag::serde(name = "n128")]
impl TBig for N<128> {}
#[typetag::serde(name = "n129")]
impl TBig for N<129> {}
#[typetag::serde(name = "n130")]
impl TBig for N<130> {}
#[typetag::serde(name = "n131")]
impl TBig for N<131> {}
#[typetag::serde(name = "n132")]
impl TBig for N<132> {}
#[typetag::serde(name = "n133")]
impl TBig for N<133> {}
#[typetag::serde(name = "n134")]
impl TBig for N<134> {}
#[typetag::serde(name = "n135")]
impl TBig for N<135> {}
#[typetag::serde(name = "n136")]
impl TBig for N<136> {}
#[typetag::serde(name = "n137")]
impl TBig for N<137> {}
#[typetag::serde(name = "n138")]
impl TBig for N<138> {}
#[typetag::serde(name = "n139")]
impl TBig for N<139> {}
#[typetag::serde(name = "n140")]
impl TBig for N<140> {}
#[typetag::serde(name = "n141")]
impl TBig for N<141> {}
#[typetag::serde(name = "n142")]
impl TBig for N<142> {}
#[typetag::serde(name = "n143")]
impl TBig for N<143> {}
#[typetag::serde(name = "n144")]
impl TBig for N<144> {}
#[typetag::serde(name = "n145")]
impl TBig for N<145> {}
#[typetag::serde(name = "n146")]
impl TBig for N<146> {}
#[typetag::serde(name = "n147")]
impl TBig for N<147> {}
#[typetag::serde(name = "n148")]
impl TBig for N<148> {}
#[typetag::serde(name = "n149")]
impl TBig for N<149> {}
#[typetag::serde(name = "n150")]
impl TBig for N<150> {}
#[typetag::serde(name = "n151")]
impl TBig for N<151> {}
#[typetag::serde(name = "n152")]
impl TBig for N<152> {}
#[typetag::serde(name = "n153")]
impl TBig for N<153> {}
#[typetag::serde(name = "n154")]
impl TBig for N<154> {}
#[typetag::serde(name = "n155")]
impl TBig for N<155> {}
#[typetag::serde(name = "n156")]
impl TBig for N<156> {}
#[typetag::serde(name = "n157")]
impl TBig for N<157> {}
#[typetag::serde(name = "n158")]
impl TBig for N<158> {}
#[typetag::serde(name = "n159")]
impl TBig for N<159> {}
#[typetag::serde(name = "n160")]
impl TBig for N<160> {}
#[typetag::serde(name = "n161")]
impl TBig for N<161> {}
#[typetag::serde(name = "n162")]
impl TBig for N<162> {}
#[typetag::serde(name = "n163")]
impl TBig for N<163> {}
#[typetag::serde(name = "n164")]
impl TBig for N<164> {}
#[typetag::serde(name = "n165")]
impl TBig for N<165> {}
#[typetag::serde(name = "n166")]
impl TBig for N<166> {}
#[typetag::serde(name = "n167")]
impl TBig for N<167> {}
#[typetag::serde(name = "n168")]
impl TBig for N<168> {}
#[typetag::serde(name = "n169")]
impl TBig for N<169> {}
#[typetag::serde(name = "n170")]
impl TBig for N<170> {}
#[typetag::serde(name = "n171")]
impl TBig for N<171> {}
#[typetag::serde(name = "n172")]
impl TBig for N<172> {}
#[typetag::serde(name = "n173")]
impl TBig for N<173> {}
#[typetag::serde(name = "n174")]
impl TBig for N<174> {}
#[typetag::serde(name = "n175")]
impl TBig for N<175> {}
#[typetag::serde(name = "n176")]
impl TBig for N<176> {}
#[typetag::serde(name = "n177")]
impl TBig for N<177> {}
#[typetag::serde(name = "n178")]
impl TBig for N<178> {}
#[typetag::serde(name = "n179")]
impl TBig for N<179> {}
#[typetag::serde(name = "n180")]
impl TBig for N<180> {}
#[typetag::serde(name = "n181")]
impl TBig for N<181> {}
#[typetag::serde(name = "n182")]
impl TBig for N<182> {}
#[typetag::serde(name = "n183")]
impl TBig for N<183> {}
#[typetag::serde(name = "n184")]
impl TBig for N<184> {}
#[typetag::serde(name = "n185")]
impl TBig for N<185> {}
#[typetag::serde(name = "n186")]
impl TBig for N<186> {}
#[typetag::serde(name = "n187")]
impl TBig for N<187> {}
#[typetag::serde(name = "n188")]
impl TBig for N<188> {}
#[typetag::serde(name = "n189")]
impl TBig for N<189> {}
#[typetag::serde(name = "n190")]
impl TBig for N<190> {}
#[typetag::serde(name = "n191")]
impl TBig for N<191> {}
#[typetag::serde(name = "n192")]
impl TBig for N<192> {}
#[typetag::serde(name = "n193")]
impl TBig for N<193> {}
#[typetag::serde(name = "n194")]
impl TBig for N<194> {}
#[typetag::serde(name = "n195")]
impl TBig for N<195> {}
#[typetag::serde(name = "n196")]
impl TBig for N<196> {}
#[typetag::serde(name = "n197")]
impl TBig for N<197> {}
#[typetag::serde(name = "n198")]
impl TBig for N<198> {}
#[typetag::serde(name = "n199")]
impl TBig for N<199> {}
#[typetag::serde(name = "n200")]
impl TBig for N<200> {}
#[typetag::serde(name = "n201")]
impl TBig for N<201> {}
#[typetag::serde(name = "n202")]
impl TBig for N<202> {}
#[typetag::serde(name = "n203")]
impl TBig for N<203> {}
#[typetag::serde(name = "n204")]
impl TBig for N<204> {}
#[typetag::serde(name = "n205")]
impl TBig for N<205> {}
#[typetag::serde(name = "n206")]
impl TBig for N<206> {}
#[typetag::serde(name = "n207")]
impl TBig for N<207> {}
#[typetag::serde(name = "n208")]
impl TBig for N<208> {}
#[typetag::serde(name = "n209")]
impl TBig for N<209> {}
#[typetag::serde(name = "n210")]
impl TBig for N<210> {}
#[typetag::serde(name = "n211")]
impl TBig for N<211> {}
#[typetag::serde(name = "n212")]
impl TBig for N<212> {}
#[typetag::serde(name = "n213")]
impl TBig for N<213> {}
#[typetag::serde(name = "n214")]
impl TBig for N<214> {}
#[typetag::serde(name = "n215")]
impl TBig for N<215> {}
#[typetag::serde(name = "n216")]
impl TBig for N<216> {}
#[typetag::serde(name = "n217")]
impl TBig for N<217> {}
#[typetag::serde(name = "n218")]
impl TBig for N<218> {}
#[typetag::serde(name = "n219")]
impl TBig for N<219> {}
#[typetag::serde(name = "n220")]
impl TBig for N<220> {}
#[typetag::serde(name = "n221")]
impl TBig for N<221> {}
#[typetag::serde(name = "n222")]
impl TBig for N<222> {}
#[typetag::serde(name = "n223")]
impl TBig for N<223> {}
#[typetag::serde(name = "n224")]
impl TBig for N<224> {}
#[typetag::serde(name = "n225")]
impl TBig for N<225> {}
#[typetag::serde(name = "n226")]
impl TBig for N<226> {}
#[typetag::serde(name = "n227")]
impl TBig for N<227> {}
#[typetag::serde(name = "n228")]
impl TBig for N<228> {}
#[typetag::serde(name = "n229")]
impl TBig for N<229> {}
#[typetag::serde(name = "n230")]
impl TBig for N<230> {}
#[typetag::serde(name = "n231")]
impl TBig for N<231> {}
#[typetag::serde(name = "n232")]
impl TBig for N<232> {}
#[typetag::serde(name = "n233")]
impl TBig for N<233> {}
#[typetag::serde(name = "n234")]
impl TBig for N<234> {}
#[typetag::serde(name = "n235")]
impl TBig for N<235> {}
#[typetag::serde(name = "n236")]
impl TBig for N<236> {}
#[typetag::serde(name = "n237")]
impl TBig for N<237> {}
#[typetag::serde(name = "n238")]
impl TBig for N<238> {}
#[typetag::serde(name = "n239")]
impl TBig for N<239> {}
#[typetag::serde(name = "n240")]
impl TBig for N<240> {}
#[typetag::serde(name = "n241")]
impl TBig for N<241> {}
#[typetag::serde(name = "n242")]
impl TBig for N<242> {}
#[typetag::serde(name = "n243")]
impl TBig for N<243> {}
#[typetag::serde(name = "n244")]
impl TBig for N<244> {}
#[typetag::serde(name = "n245")]
impl TBig for N<245> {}
#[typetag::serde(name = "n246")]
impl TBig for N<246> {}
#[typetag::serde(name = "n247")]
impl TBig for N<247> {}
#[typetag::serde(name = "n248")]
impl TBig for N<248> {}
#[typetag::serde(name = "n249")]
impl TBig for N<249> {}
#[typetag::serde(name = "n250")]
impl TBig for N<250> {}
#[typetag::serde(name = "n251")]
impl TBig for N<251> {}
#[typetag::serde(name = "n252")]
impl TBig for N<252> {}
#[typetag::serde(name = "n253")]
impl TBig for N<253> {}
#[typetag::serde(name = "n254")]
impl TBig for N<254> {}
#[typetag::serde(name = "n255")]
impl TBig for N<255> {}
#[typetag::serde(name = "n256")]
impl TBig for N<256> {}
#[typetag::serde(name = "n257")]
impl TBig for N<257> {}
#[typetag::serde(name = "n258")]
impl TBig for N<258> {}
#[typetag::serde(name = "n259")]
impl TBig for N<259> {}
#[typetag::serde(name = "n260")]
impl TBig for N<260> {}
#[typetag::serde(name = "n261")]
impl TBig for N<261> {}
#[typetag::serde(name = "n262")]
impl TBig for N<262> {}
#[typetag::serde(name = "n263")]
impl TBig for N<263> {}
#[typetag::serde(name = "n264")]
impl TBig for N<264> {}
#[typetag::serde(name = "n265")]
impl TBig for N<265> {}
#[typetag::serde(name = "n266")]
impl TBig for N<266> {}
#[typetag::serde(name = "n267")]
impl TBig for N<267> {}
#[typetag::serde(name = "n268")]
impl TBig for N<268> {}
#[typetag::serde(name = "n269")]
impl TBig for N<269> {}
#[typetag::serde(name = "n270")]
impl TBig for N<270> {}
#[typetag::serde(name = "n271")]
impl TBig for N<271> {}
#[typetag::serde(name = "n272")]
impl TBig for N<272> {}
#[typetag::serde(name = "n273")]
impl TBig for N<273> {}
#[typetag::serde(name = "n274")]
impl TBig for N<274> {}
#[typetag::serde(name = "n275")]
impl TBig for N<275> {}
#[typetag::serde(name = "n276")]
impl TBig for N<276> {}
#[typetag::serde(name = "n277")]
impl TBig for N<277> {}
#[typetag::serde(name = "n278")]
impl TBig for N<278> {}
#[typetag::serde(name = "n279")]
impl TBig for N<279> {}
#[typetag::serde(name = "n280")]
impl TBig for N<280> {}
#[typetag::serde(name = "n281")]
impl TBig for N<281> {}
#[typetag::serde(name = "n282")]
impl TBig for N<282> {}
#[typetag::serde(name = "n283")]
impl TBig for N<283> {}
#[typetag::serde(name = "n284")]
impl TBig for N<284> {}
#[typetag::serde(name = "n285")]
impl TBig for N<285> {}
#[typetag::serde(name = "n286")]
impl TBig for N<286> {}
#[typetag::serde(name = "n287")]
impl TBig for N<287> {}
#[typetag::serde(name = "n000")]
impl TBig for N<288> {}
#[typetag::serde(name = "n010")]
impl TBig for N<289> {}
#[typetag::serde(name = "n020")]
impl TBig for N<290> {}
#[typetag::serde(name = "n030")]
impl TBig for N<291> {}
#[typetag::serde(name = "n040")]
impl TBig for N<292> {}
#[typetag::serde(name = "n050")]
impl TBig for N<293> {}
#[typetag::serde(name = "n060")]
impl TBig for N<294> {}
#[typetag::serde(name = "n070")]
impl TBig for N<295> {}
#[typetag::serde(name = "n080")]
impl TBig for N<296> {}
#[typetag::serde(name = "n090")]
impl TBig for N<297> {}
#[typetag::serde(name = "n100")]
impl TBig for N<298> {}
#[typetag::serde(name = "n110")]
impl TBig for N<299> {}
#[typetag::serde(name = "n120")]
impl TBig for N<300> {}
#[typetag::serde(name = "n130")]
impl TBig for N<301> {}
#[typetag::serde(name = "n140")]
impl TBig for N<302> {}
#[typetag::serde(name = "n150")]
impl TBig for N<303> {}
#[typetag::serde(name = "n160")]
impl TBig for N<304> {}
#[typetag::serde(name = "n170")]
impl TBig for N<305> {}
#[typetag::serde(name = "n180")]
impl TBig for N<306> {}
#[typetag::serde(name = "n190")]
impl TBig for N<307> {}
#[typetag::serde(name = "n200")]
impl TBig for N<308> {}
#[typetag::serde(name = "n210")]
impl TBig for N<309> {}
#[typetag::serde(name = "n220")]
impl TBig for N<310> {}
#[typetag::serde(name = "n230")]
impl TBig for N<311> {}
#[typetag::serde(name = "n240")]
impl TBig for N<312> {}
#[typetag::serde(name = "n250")]
impl TBig for N<313> {}
#[typetag::serde(name = "n260")]
impl TBig for N<314> {}
#[typetag::serde(name = "n270")]
impl TBig for N<315> {}

#[typetag::serde]
pub trait TSlowe: Obj {}
#[typetag::serde(name = slow!("00"))]
impl TSlowe for N<0> {}
#[typetag::serde(name = slow!("01"))]
impl TSlowe for N<1> {}
#[typetag::serde(name = slow!("02"))]
impl TSlowe for N<2> {}
#[typetag::serde(name = slow!("03"))]
impl TSlowe for N<3> {}
#[typetag::serde(name = slow!("04"))]
impl TSlowe for N<4> {}
#[typetag::serde(name = slow!("05"))]
impl TSlowe for N<5> {}
#[typetag::serde(name = slow!("06"))]
impl TSlowe for N<6> {}
#[typetag::serde(name = slow!("07"))]
impl TSlowe for N<7> {}
#[typetag::serde(name = slow!("08"))]
impl TSlowe for N<8> {}
#[typetag::serde(name = slow!("09"))]
impl TSlowe for N<9> {}
#[typetag::serde(name = slow!("10"))]
impl TSlowe for N<10> {}
#[typetag::serde(name = slow!("11"))]
impl TSlowe for N<11> {}
#[typetag::serde(name = slow!("12"))]
impl TSlowe for N<12> {}
#[typetag::serde(name = slow!("13"))]
impl TSlowe for N<13> {}
#[typetag::serde(name = slow!("14"))]
impl TSlowe for N<14> {}
#[typetag::serde(name = slow!("15"))]
impl TSlowe for N<15> {}
#[typetag::serde(name = slow!("16"))]
impl TSlowe for N<16> {}
#[typetag::serde(name = slow!("17"))]
impl TSlowe for N<17> {}
#[typetag::serde(name = slow!("18"))]
impl TSlowe for N<18> {}
#[typetag::serde(name = slow!("19"))]
impl TSlowe for N<19> {}
#[typetag::serde(name = slow!("20"))]
impl TSlowe for N<20> {}
#[typetag::serde(name = slow!("21"))]
impl TSlowe for N<21> {}
#[typetag::serde(name = slow!("22"))]
impl TSlowe for N<22> {}
#[typetag::serde(name = slow!("23"))]
impl TSlowe for N<23> {}
#[typetag::serde(name = slow!("24"))]
impl TSlowe for N<24> {}
#[typetag::serde(name = slow!("25"))]
impl TSlowe for N<25> {}
#[typetag::serde(name = slow!("26"))]
impl TSlowe for N<26> {}
#[typetag::serde(name = slow!("27"))]
impl TSlowe for N<27> {}
#[typetag::serde(name = slow!("28"))]
impl TSlowe for N<28> {}
#[typetag::serde(name = slow!("29"))]
impl TSlowe for N<29> {}
#[typetag::serde(name = slow!("30"))]
impl TSlowe for N<30> {}
#[typetag::serde(name = slow!("31"))]
impl TSlowe for N<31> {}
#[typetag::serde(name = slow!("32"))]
impl TSlowe for N<32> {}
#[typetag::serde(name = slow!("33"))]
impl TSlowe for N<33> {}
#[typetag::serde(name = slow!("34"))]
impl TSlowe for N<34> {}
#[typetag::serde(name = slow!("35"))]
impl TSlowe for N<35> {}
#[typetag::serde(name = slow!("36"))]
impl TSlowe for N<36> {}
#[typetag::serde(name = slow!("37"))]
impl TSlowe for N<37> {}
#[typetag::serde(name = slow!("38"))]
impl TSlowe for N<38> {}
#[typetag::serde(name = slow!("39"))]
impl TSlowe for N<39> {}
#[typetag::serde(name = slow!("00"))]
impl TSlowe for N<40> {}
#[typetag::serde(name = slow!("10"))]
impl TSlowe for N<41> {}
#[typetag::serde(name = slow!("20"))]
impl TSlowe for N<42> {}
#[typetag::serde(name = slow!("30"))]
impl TSlowe for N<43> {}

#[typetag::serde(tag = "t")]
pub trait TSlowi: Obj {}
#[typetag::serde(name = slow!("00"))]
impl TSlowi for N<0> {}
#[typetag::serde(name = slow!("01"))]
impl TSlowi for N<1> {}
#[typetag::serde(name = slow!("02"))]
impl TSlowi for N<2> {}
#[typetag::serde(name = slow!("03"))]
impl TSlowi for N<3> {}
#[typetag::serde(name = slow!("04"))]
impl TSlowi for N<4> {}
#[typetag::serde(name = slow!("05"))]
impl TSlowi for N<5> {}
#[typetag::serde(name = slow!("06"))]
impl TSlowi for N<6> {}
#[typetag::serde(name = slow!("07"))]
impl TSlowi for N<7> {}
#[typetag::serde(name = slow!("08"))]
impl TSlowi for N<8> {}
#[typetag::serde(name = slow!("09"))]
impl TSlowi for N<9> {}
#[typetag::serde(name = slow!("10"))]
impl TSlowi for N<10> {}
#[typetag::serde(name = slow!("11"))]
impl TSlowi for N<11> {}
#[typetag::serde(name = slow!("12"))]
impl TSlowi for N<12> {}
#[typetag::serde(name = slow!("13"))]
impl TSlowi for N<13> {}
#[typetag::serde(name = slow!("14"))]
impl TSlowi for N<14> {}
#[typetag::serde(name = slow!("15"))]
impl TSlowi for N<15> {}
#[typetag::serde(name = slow!("16"))]
impl TSlowi for N<16> {}
#[typetag::serde(name = slow!("17"))]
impl TSlowi for N<17> {}
#[typetag::serde(name = slow!("18"))]
impl TSlowi for N<18> {}
#[typetag::serde(name = slow!("19"))]
impl TSlowi for N<19> {}
#[typetag::serde(name = slow!("20"))]
impl TSlowi for N<20> {}
#[typetag::serde(name = slow!("21"))]
impl TSlowi for N<21> {}
#[typetag::serde(name = slow!("22"))]
impl TSlowi for N<22> {}
#[typetag::serde(name = slow!("23"))]
impl TSlowi for N<23> {}
#[typetag::serde(name = slow!("24"))]
impl TSlowi for N<24> {}
#[typetag::serde(name = slow!("25"))]
impl TSlowi for N<25> {}
#[typetag::serde(name = slow!("26"))]
impl TSlowi for N<26> {}
#[typetag::serde(name = slow!("27"))]
impl TSlowi for N<27> {}
#[typetag::serde(name = slow!("28"))]
impl TSlowi for N<28> {}
#[typetag::serde(name = slow!("29"))]
impl TSlowi for N<29> {}
#[typetag::serde(name = slow!("30"))]
impl TSlowi for N<30> {}
#[typetag::serde(name = slow!("31"))]
impl TSlowi for N<31> {}
#[typetag::serde(name = slow!("32"))]
impl TSlowi for N<32> {}
#[typetag::serde(name = slow!("33"))]
impl TSlowi for N<33> {}
#[typetag::serde(name = slow!("34"))]
impl TSlowi for N<34> {}
#[typetag::serde(name = slow!("35"))]
impl TSlowi for N<35> {}
#[typetag::serde(name = slow!("36"))]
impl TSlowi for N<36> {}
#[typetag::serde(name = slow!("37"))]
impl TSlowi for N<37> {}
#[typetag::serde(name = slow!("38"))]
impl TSlowi for N<38> {}
#[typetag::serde(name = slow!("39"))]
impl TSlowi for N<39> {}
#[typetag::serde(name = slow!("00"))]
impl TSlowi for N<40> {}
#[typetag::serde(name = slow!("10"))]
impl TSlowi for N<41> {}
#[typetag::serde(name = slow!("20"))]
impl TSlowi for N<42> {}
#[typetag::serde(name = slow!("30"))]
impl TSlowi for N<43> {}

#[typetag::serde(tag = "t", content = "c")]
pub trait TSlowa: Obj {}
#[typetag::serde(name = slow!("00"))]
impl TSlowa for N<0> {}
#[typetag::serde(name = slow!("01"))]
impl TSlowa for N<1> {}
#[typetag::serde(name = slow!("02"))]
impl TSlowa for N<2> {}
#[typetag::serde(name = slow!("03"))]
impl TSlowa for N<3> {}
#[typetag::serde(name = slow!("04"))]
impl TSlowa for N<4> {}
#[typetag::serde(name = slow!("05"))]
impl TSlowa for N<5> {}
#[typetag::serde(name = slow!("06"))]
impl TSlowa for N<6> {}
#[typetag::serde(name = slow!("07"))]
impl TSlowa for N<7> {}
#[typetag::serde(name = slow!("08"))]
impl TSlowa for N<8> {}
#[typetag::serde(name = slow!("09"))]
impl TSlowa for N<9> {}
#[typetag::serde(name = slow!("10"))]
impl TSlowa for N<10> {}
#[typetag::serde(name = slow!("11"))]
impl TSlowa for N<11> {}
#[typetag::serde(name = slow!("12"))]
impl TSlowa for N<12> {}
#[typetag::serde(name = slow!("13"))]
impl TSlowa for N<13> {}
#[typetag::serde(name = slow!("14"))]
impl TSlowa for N<14> {}
#[typetag::serde(name = slow!("15"))]
impl TSlowa for N<15> {}
#[typetag::serde(name = slow!("16"))]
impl TSlowa for N<16> {}
#[typetag::serde(name = slow!("17"))]
impl TSlowa for N<17> {}
#[typetag::serde(name = slow!("18"))]
impl TSlowa for N<18> {}
#[typetag::serde(name = slow!("19"))]
impl TSlowa for N<19> {}
#[typetag::serde(name = slow!("20"))]
impl TSlowa for N<20> {}
#[typetag::serde(name = slow!("21"))]
impl TSlowa for N<21> {}
#[typetag::serde(name = slow!("22"))]
impl TSlowa for N<22> {}
#[typetag::serde(name = slow!("23"))]
impl TSlowa for N<23> {}
#[typetag::serde(name = slow!("24"))]
impl TSlowa for N<24> {}
#[typetag::serde(name = slow!("25"))]
impl TSlowa for N<25> {}
#[typetag::serde(name = slow!("26"))]
impl TSlowa for N<26> {}
#[typetag::serde(name = slow!("27"))]
impl TSlowa for N<27> {}
#[typetag::serde(name = slow!("28"))]
impl TSlowa for N<28> {}
#[typetag::serde(name = slow!("29"))]
impl TSlowa for N<29> {}
#[typetag::serde(name = slow!("30"))]
impl TSlowa for N<30> {}
#[typetag::serde(name = slow!("31"))]
impl TSlowa for N<31> {}
#[typetag::serde(name = slow!("32"))]
impl TSlowa for N<32> {}
#[typetag::serde(name = slow!("33"))]
impl TSlowa for N<33> {}
#[typetag::serde(name = slow!("34"))]
impl TSlowa for N<34> {}
#[typetag::serde(name = slow!("35"))]
impl TSlowa for N<35> {}
#[typetag::serde(name = slow!("36"))]
impl TSlowa for N<36> {}
#[typetag::serde(name = slow!("37"))]
impl TSlowa for N<37> {}
#[typetag::serde(name = slow!("38"))]
impl TSlowa for N<38> {}
#[typetag::serde(name = slow!("39"))]
impl TSlowa for N<39> {}
#[typetag::serde(name = slow!("00"))]
impl TSlowa for N<40> {}
#[typetag::serde(name = slow!("10"))]
impl TSlowa for N<41> {}
#[typetag::serde(name = slow!("20"))]
impl TSlowa for N<42> {}
#[typetag::serde(name = slow!("30"))]
impl TSlowa for N<43> {}

#[typetag::serde]
pub trait TMextn: Obj {}
#[typetag::serde(name = "A")]
impl TMextn for A {}
#[typetag::serde(name = "B")]
impl TMextn for B {}
#[typetag::serde(name = "C")]
impl TMextn for C {}
#[typetag::serde(name = "dup")]
impl TMextn for Dup1 {}
#[typetag::serde(name = "dup")]
impl TMextn for Dup2 {}
#[typetag::serde(name = KONST)]
impl TMextn for Konst {}
#[typetag::serde(name = "sizeless")]
impl TMextn for Sizeless {}
#[typetag::serde(name = "wide")]
impl TMextn for Wide {}
#[typetag::serde(name = "only-mextn")]
impl TMextn for Only {}

#[typetag::serde]
pub trait TMexts: Obj + Send {}
#[typetag::serde]
impl TMexts for A {}
#[typetag::serde(name = "B")]
impl TMexts for B {}
#[typetag::serde]
impl TMexts for C {}
#[typetag::serde(name = "dup")]
impl TMexts for Dup1 {}
#[typetag::serde(name = "dup")]
impl TMexts for Dup2 {}
#[typetag::serde(name = KONST)]
impl TMexts for Konst {}
#[typetag::serde(name = "sizeless")]
impl TMexts for Sizeless {}
#[typetag::serde(name = "wide")]
impl TMexts for Wide {}
#[typetag::serde(name = "only-mexts")]
impl TMexts for Only {}

#[typetag::serde]
pub trait TMexty: Obj + Sync {}
#[typetag::serde(name = "A")]
impl TMexty for A {}
#[typetag::serde(name = "B")]
impl TMexty for B {}
#[typetag::serde(name = "C")]
impl TMexty for C {}
#[typetag::serde(name = "dup")]
impl TMexty for Dup1 {}
#[typetag::serde(name = "dup")]
impl TMexty for Dup2 {}
#[typetag::serde(name = KONST)]
impl TMexty for Konst {}
#[typetag::serde(name = "sizeless")]
impl TMexty for Sizeless {}
#[typetag::serde(name = "wide")]
impl TMexty for Wide {}
#[typetag::serde(name = "only-mexty")]
impl TMexty for Only {}

#[typetag::serde]
pub trait TMextb: Obj + Send + Sync {}
#[typetag::serde]
impl TMextb for A {}
#[typetag::serde(name = "B")]
impl TMextb for B {}
#[typetag::serde]
impl TMextb for C {}
#[typetag::serde(name = "dup")]
impl TMextb for Dup1 {}
#[typetag::serde(name = "dup")]
impl TMextb for Dup2 {}
#[typetag::serde(name = KONST)]
impl TMextb for Konst {}
#[typetag::serde(name = "sizeless")]
impl TMextb for Sizeless {}
#[typetag::serde(name = "wide")]
impl TMextb for Wide {}
#[typetag::serde(name = "only-mextb")]
impl TMextb for Only {}

#[typetag::serde(tag = "t")]
pub trait TMintn: Obj {}
#[typetag::serde(name = "A")]
impl TMintn for A {}
#[typetag::serde(name = "B")]
impl TMintn for B {}
#[typetag::serde(name = "C")]
impl TMintn for C {}
#[typetag::serde(name = "dup")]
impl TMintn for Dup1 {}
#[typetag::serde(name = "dup")]
impl TMintn for Dup2 {}
#[typetag::serde(name = KONST)]
impl TMintn for Konst {}
#[typetag::serde(name = "sizeless")]
impl TMintn for Sizeless {}
#[typetag::serde(name = "wide")]
impl TMintn for Wide {}
#[typetag::serde(name = "only-mintn")]
impl TMintn for Only {}

#[typetag::serde(tag = "t")]
pub trait TMints: Obj + Send {}
#[typetag::serde]
impl TMints for A {}
#[typetag::serde(name = "B")]
impl TMints for B {}
#[typetag::serde]
impl TMints for C {}
#[typetag::serde(name = "dup")]
impl TMints for Dup1 {}
#[typetag::serde(name = "dup")]
impl TMints for Dup2 {}
#[typetag::serde(name = KONST)]
impl TMints for Konst {}
#[typetag::serde(name = "sizeless")]
impl TMints for Sizeless {}
#[typetag::serde(name = "wide")]
impl TMints for Wide {}
#[typetag::serde(name = "only-mints")]
impl TMints for Only {}

#[typetag::serde(tag = "t")]
pub trait TMinty: Obj + Sync {}
#[typetag::serde(name = "A")]
impl TMinty for A {}
#[typetag::serde(name = "B")]
impl TMinty for B {}
#[typetag::serde(name = "C")]
impl TMinty for C {}
#[typetag::serde(name = "dup")]
impl TMinty for Dup1 {}
#[typetag::serde(name = "dup")]
impl TMinty for Dup2 {}
#[typetag::serde(name = KONST)]
impl TMinty for Konst {}
#[typetag::serde(name = "sizeless")]
impl TMinty for Sizeless {}
#[typetag::serde(name = "wide")]
impl TMinty for Wide {}
#[typetag::serde(name = "only-minty")]
impl TMinty for Only {}

#[typetag::serde(tag = "t")]
pub trait TMintb: Obj + Send + Sync {}
#[typetag::serde]
impl TMintb for A {}
#[typetag::serde(name = "B")]
impl TMintb for B {}
#[typetag::serde]
impl TMintb for C {}
#[typetag::serde(name = "dup")]
impl TMintb for Dup1 {}
#[typetag::serde(name = "dup")]
impl TMintb for Dup2 {}
#[typetag::serde(name = KONST)]
impl TMintb for Konst {}
#[typetag::serde(name = "sizeless")]
impl TMintb for Sizeless {}
#[typetag::serde(name = "wide")]
impl TMintb for Wide {}
#[typetag::serde(name = "only-mintb")]
impl TMintb for Only {}

#[typetag::serde(tag = "t", content = "c")]
pub trait TMadjn: Obj {}
#[typetag::serde(name = "A")]
impl TMadjn for A {}
#[typetag::serde(name = "B")]
impl TMadjn for B {}
#[typetag::serde(name = "C")]
impl TMadjn for C {}
#[typetag::serde(name = "dup")]
impl TMadjn for Dup1 {}
#[typetag::serde(name = "dup")]
impl TMadjn for Dup2 {}
#[typetag::serde(name = KONST)]
impl TMadjn for Konst {}
#[typetag::serde(name = "sizeless")]
impl TMadjn for Sizeless {}
#[typetag::serde(name = "wide")]
impl TMadjn for Wide {}
#[typetag::serde(name = "only-madjn")]
impl TMadjn for Only {}

#[typetag::serde(tag = "t", content = "c")]
pub trait TMadjs: Obj + Send {}
#[typetag::serde]
impl TMadjs for A {}
#[typetag::serde(name = "B")]
impl TMadjs for B {}
#[typetag::serde]
impl TMadjs for C {}
#[typetag::serde(name = "dup")]
impl TMadjs for Dup1 {}
#[typetag::serde(name = "dup")]
impl TMadjs for Dup2 {}
#[typetag::serde(name = KONST)]
impl TMadjs for Konst {}
#[typetag::serde(name = "sizeless")]
impl TMadjs for Sizeless {}
#[typetag::serde(name = "wide")]
impl TMadjs for Wide {}
#[typetag::serde(name = "only-madjs")]
impl TMadjs for Only {}

#[typetag::serde(tag = "t", content = "c")]
pub trait TMadjy: Obj + Sync {}
#[typetag::serde(name = "A")]
impl TMadjy for A {}
#[typetag::serde(name = "B")]
impl TMadjy for B {}
#[typetag::serde(name = "C")]
impl TMadjy for C {}
#[typetag::serde(name = "dup")]
impl TMadjy for Dup1 {}
#[typetag::serde(name = "dup")]
impl TMadjy for Dup2 {}
#[typetag::serde(name = KONST)]
impl TMadjy for Konst {}
#[typetag::serde(name = "sizeless")]
impl TMadjy for Sizeless {}
#[typetag::serde(name = "wide")]
impl TMadjy for Wide {}
#[typetag::serde(name = "only-madjy")]
impl TMadjy for Only {}

#[typetag::serde(tag = "t", content = "c")]
pub trait TMadjb: Obj + Send + Sync {}
#[typetag::serde]
impl TMadjb for A {}
#[typetag::serde(name = "B")]
impl TMadjb for B {}
#[typetag::serde]
impl TMadjb for C {}
#[typetag::serde(name = "dup")]
impl TMadjb for Dup1 {}
#[typetag::serde(name = "dup")]
impl TMadjb for Dup2 {}
#[typetag::serde(name = KONST)]
impl TMadjb for Konst {}
#[typetag::serde(name = "sizeless")]
impl TMadjb for Sizeless {}
#[typetag::serde(name = "wide")]
impl TMadjb for Wide {}
#[typetag::serde(name = "only-madjb")]
impl TMadjb for Only {}

pub struct Make {
    pub cfg: &'static str,
    pub tag: &'static str,
    pub ty: &'static str,
}

/// Every registration: configuration, tag, type.
pub const ALL: &[Make] = &[
    Make { cfg: "ext0", tag: "A", ty: "A" },
    Make { cfg: "ext0", tag: "B", ty: "B" },
    Make { cfg: "ext0", tag: "C", ty: "C" },
    Make { cfg: "ext0", tag: "value", ty: "Value" },
    Make { cfg: "ext0", tag: "", ty: "Empty" },
    Make { cfg: "ext0", tag: "ünï \"q\"\\\n%", ty: "Uni" },
    Make { cfg: "ext0", tag: "K", ty: "Konst" },
    Make { cfg: "ext0", tag: "cat", ty: "Cat" },
    Make { cfg: "ext0", tag: "dup", ty: "Dup1" },
    Make { cfg: "ext0", tag: "dup", ty: "Dup2" },
    Make { cfg: "ext0", tag: "trip", ty: "Trip1" },
    Make { cfg: "ext0", tag: "trip", ty: "Trip2" },
    Make { cfg: "ext0", tag: "trip", ty: "Trip3" },
    Make { cfg: "ext0", tag: "quad", ty: "Quad1" },
    Make { cfg: "ext0", tag: "quad", ty: "Quad2" },
    Make { cfg: "ext0", tag: "quad", ty: "Quad3" },
    Make { cfg: "ext0", tag: "quad", ty: "Quad4" },
    Make { cfg: "ext0", tag: "dupx", ty: "DupX1" },
    Make { cfg: "ext0", tag: "sizeless", ty: "Sizeless" },
    Make { cfg: "ext0", tag: "wide", ty: "Wide" },
    Make { cfg: "ext0", tag: "only-ext0", ty: "Only" },
    Make { cfg: "ext0", tag: "XA", ty: "XA" },
    Make { cfg: "ext0", tag: "dupx", ty: "DupX2" },
    Make { cfg: "ext0", tag: "~last", ty: "XZ" },
    Make { cfg: "int0", tag: "A", ty: "A" },
    Make { cfg: "int0", tag: "B", ty: "B" },
    Make { cfg: "int0", tag: "C", ty: "C" },
    Make { cfg: "int0", tag: "value", ty: "Value" },
    Make { cfg: "int0", tag: "", ty: "Empty" },
    Make { cfg: "int0", tag: "ünï \"q\"\\\n%", ty: "Uni" },
    Make { cfg: "int0", tag: "K", ty: "Konst" },
    Make { cfg: "int0", tag: "cat", ty: "Cat" },
    Make { cfg: "int0", tag: "dup", ty: "Dup1" },
    Make { cfg: "int0", tag: "dup", ty: "Dup2" },
    Make { cfg: "int0", tag: "trip", ty: "Trip1" },
    Make { cfg: "int0", tag: "trip", ty: "Trip2" },
    Make { cfg: "int0", tag: "trip", ty: "Trip3" },
    Make { cfg: "int0", tag: "quad", ty: "Quad1" },
    Make { cfg: "int0", tag: "quad", ty: "Quad2" },
    Make { cfg: "int0", tag: "quad", ty: "Quad3" },
    Make { cfg: "int0", tag: "quad", ty: "Quad4" },
    Make { cfg: "int0", tag: "dupx", ty: "DupX1" },
    Make { cfg: "int0", tag: "sizeless", ty: "Sizeless" },
    Make { cfg: "int0", tag: "wide", ty: "Wide" },
    Make { cfg: "int0", tag: "only-int0", ty: "Only" },
    Make { cfg: "int0", tag: "XA", ty: "XA" },
    Make { cfg: "int0", tag: "dupx", ty: "DupX2" },
    Make { cfg: "int0", tag: "~last", ty: "XZ" },
    Make { cfg: "int1", tag: "A", ty: "A" },
    Make { cfg: "int1", tag: "B", ty: "B" },
    Make { cfg: "int1", tag: "C", ty: "C" },
    Make { cfg: "int1", tag: "value", ty: "Value" },
    Make { cfg: "int1", tag: "", ty: "Empty" },
    Make { cfg: "int1", tag: "ünï \"q\"\\\n%", ty: "Uni" },
    Make { cfg: "int1", tag: "K", ty: "Konst" },
    Make { cfg: "int1", tag: "cat", ty: "Cat" },
    Make { cfg: "int1", tag: "dup", ty: "Dup1" },
    Make { cfg: "int1", tag: "dup", ty: "Dup2" },
    Make { cfg: "int1", tag: "trip", ty: "Trip1" },
    Make { cfg: "int1", tag: "trip", ty: "Trip2" },
    Make { cfg: "int1", tag: "trip", ty: "Trip3" },
    Make { cfg: "int1", tag: "quad", ty: "Quad1" },
    Make { cfg: "int1", tag: "quad", ty: "Quad2" },
    Make { cfg: "int1", tag: "quad", ty: "Quad3" },
    Make { cfg: "int1", tag: "quad", ty: "Quad4" },
    Make { cfg: "int1", tag: "dupx", ty: "DupX1" },
    Make { cfg: "int1", tag: "sizeless", ty: "Sizeless" },
    Make { cfg: "int1", tag: "wide", ty: "Wide" },
    Make { cfg: "int1", tag: "only-int1", ty: "Only" },
    Make { cfg: "int1", tag: "XA", ty: "XA" },
    Make { cfg: "int1", tag: "dupx", ty: "DupX2" },
    Make { cfg: "int1", tag: "~last", ty: "XZ" },
    Make { cfg: "int2", tag: "A", ty: "A" },
    Make { cfg: "int2", tag: "B", ty: "B" },
    Make { cfg: "int2", tag: "C", ty: "C" },
    Make { cfg: "int2", tag: "value", ty: "Value" },
    Make { cfg: "int2", tag: "", ty: "Empty" },
    Make { cfg: "int2", tag: "ünï \"q\"\\\n%", ty: "Uni" },
    Make { cfg: "int2", tag: "K", ty: "Konst" },
    Make { cfg: "int2", tag: "cat", ty: "Cat" },
    Make { cfg: "int2", tag: "dup", ty: "Dup1" },
    Make { cfg: "int2", tag: "dup", ty: "Dup2" },
    Make { cfg: "int2", tag: "trip", ty: "Trip1" },
    Make { cfg: "int2", tag: "trip", ty: "Trip2" },
    Make { cfg: "int2", tag: "trip", ty: "Trip3" },
    Make { cfg: "int2", tag: "quad", ty: "Quad1" },
    Make { cfg: "int2", tag: "quad", ty: "Quad2" },
    Make { cfg: "int2", tag: "quad", ty: "Quad3" },
    Make { cfg: "int2", tag: "quad", ty: "Quad4" },
    Make { cfg: "int2", tag: "dupx", ty: "DupX1" },
    Make { cfg: "int2", tag: "sizeless", ty: "Sizeless" },
    Make { cfg: "int2", tag: "wide", ty: "Wide" },
    Make { cfg: "int2", tag: "only-int2", ty: "Only" },
    Make { cfg: "int2", tag: "XA", ty: "XA" },
    Make { cfg: "int2", tag: "dupx", ty: "DupX2" },
    Make { cfg: "int2", tag: "~last", ty: "XZ" },
    Make { cfg: "int3", tag: "A", ty: "A" },
    Make { cfg: "int3", tag: "B", ty: "B" },
    Make { cfg: "int3", tag: "C", ty: "C" },
    Make { cfg: "int3", tag: "value", ty: "Value" },
    Make { cfg: "int3", tag: "", ty: "Empty" },
    Make { cfg: "int3", tag: "ünï \"q\"\\\n%", ty: "Uni" },
    Make { cfg: "int3", tag: "K", ty: "Konst" },
    Make { cfg: "int3", tag: "cat", ty: "Cat" },
    Make { cfg: "int3", tag: "dup", ty: "Dup1" },
    Make { cfg: "int3", tag: "dup", ty: "Dup2" },
    Make { cfg: "int3", tag: "trip", ty: "Trip1" },
    Make { cfg: "int3", tag: "trip", ty: "Trip2" },
    Make { cfg: "int3", tag: "trip", ty: "Trip3" },
    Make { cfg: "int3", tag: "quad", ty: "Quad1" },
    Make { cfg: "int3", tag: "quad", ty: "Quad2" },
    Make { cfg: "int3", tag: "quad", ty: "Quad3" },
    Make { cfg: "int3", tag: "quad", ty: "Quad4" },
    Make { cfg: "int3", tag: "dupx", ty: "DupX1" },
    Make { cfg: "int3", tag: "sizeless", ty: "Sizeless" },
    Make { cfg: "int3", tag: "wide", ty: "Wide" },
    Make { cfg: "int3", tag: "only-int3", ty: "Only" },
    Make { cfg: "int3", tag: "XA", ty: "XA" },
    Make { cfg: "int3", tag: "dupx", ty: "DupX2" },
    Make { cfg: "int3", tag: "~last", ty: "XZ" },
    Make { cfg: "int4", tag: "A", ty: "A" },
    Make { cfg: "int4", tag: "B", ty: "B" },
    Make { cfg: "int4", tag: "C", ty: "C" },
    Make { cfg: "int4", tag: "value", ty: "Value" },
    Make { cfg: "int4", tag: "", ty: "Empty" },
    Make { cfg: "int4", tag: "ünï \"q\"\\\n%", ty: "Uni" },
    Make { cfg: "int4", tag: "K", ty: "Konst" },
    Make { cfg: "int4", tag: "cat", ty: "Cat" },
    Make { cfg: "int4", tag: "dup", ty: "Dup1" },
    Make { cfg: "int4", tag: "dup", ty: "Dup2" },
    Make { cfg: "int4", tag: "trip", ty: "Trip1" },
    Make { cfg: "int4", tag: "trip", ty: "Trip2" },
    Make { cfg: "int4", tag: "trip", ty: "Trip3" },
    Make { cfg: "int4", tag: "quad", ty: "Quad1" },
    Make { cfg: "int4", tag: "quad", ty: "Quad2" },
    Make { cfg: "int4", tag: "quad", ty: "Quad3" },
    Make { cfg: "int4", tag: "quad", ty: "Quad4" },
    Make { cfg: "int4", tag: "dupx", ty: "DupX1" },
    Make { cfg: "int4", tag: "sizeless", ty: "Sizeless" },
    Make { cfg: "int4", tag: "wide", ty: "Wide" },
    Make { cfg: "int4", tag: "only-int4", ty: "Only" },
    Make { cfg: "int4", tag: "XA", ty: "XA" },
    Make { cfg: "int4", tag: "dupx", ty: "DupX2" },
    Make { cfg: "int4", tag: "~last", ty: "XZ" },
    Make { cfg: "int5", tag: "A", ty: "A" },
    Make { cfg: "int5", tag: "B", ty: "B" },
    Make { cfg: "int5", tag: "C", ty: "C" },
    Make { cfg: "int5", tag: "value", ty: "Value" },
    Make { cfg: "int5", tag: "", ty: "Empty" },
    Make { cfg: "int5", tag: "ünï \"q\"\\\n%", ty: "Uni" },
    Make { cfg: "int5", tag: "K", ty: "Konst" },
    Make { cfg: "int5", tag: "cat", ty: "Cat" },
    Make { cfg: "int5", tag: "dup", ty: "Dup1" },
    Make { cfg: "int5", tag: "dup", ty: "Dup2" },
    Make { cfg: "int5", tag: "trip", ty: "Trip1" },
    Make { cfg: "int5", tag: "trip", ty: "Trip2" },
    Make { cfg: "int5", tag: "trip", ty: "Trip3" },
    Make { cfg: "int5", tag: "quad", ty: "Quad1" },
    Make { cfg: "int5", tag: "quad", ty: "Quad2" },
    Make { cfg: "int5", tag: "quad", ty: "Quad3" },
    Make { cfg: "int5", tag: "quad", ty: "Quad4" },
    Make { cfg: "int5", tag: "dupx", ty: "DupX1" },
    Make { cfg: "int5", tag: "sizeless", ty: "Sizeless" },
    Make { cfg: "int5", tag: "wide", ty: "Wide" },
    Make { cfg: "int5", tag: "only-int5", ty: "Only" },
    Make { cfg: "int5", tag: "XA", ty: "XA" },
    Make { cfg: "int5", tag: "dupx", ty: "DupX2" },
    Make { cfg: "int5", tag: "~last", ty: "XZ" },
    Make { cfg: "int6", tag: "A", ty: "A" },
    Make { cfg: "int6", tag: "B", ty: "B" },
    Make { cfg: "int6", tag: "C", ty: "C" },
    Make { cfg: "int6", tag: "value", ty: "Value" },
    Make { cfg: "int6", tag: "", ty: "Empty" },
    Make { cfg: "int6", tag: "ünï \"q\"\\\n%", ty: "Uni" },
    Make { cfg: "int6", tag: "K", ty: "Konst" },
    Make { cfg: "int6", tag: "cat", ty: "Cat" },
    Make { cfg: "int6", tag: "dup", ty: "Dup1" },
    Make { cfg: "int6", tag: "dup", ty: "Dup2" },
    Make { cfg: "int6", tag: "trip", ty: "Trip1" },
    Make { cfg: "int6", tag: "trip", ty: "Trip2" },
    Make { cfg: "int6", tag: "trip", ty: "Trip3" },
    Make { cfg: "int6", tag: "quad", ty: "Quad1" },
    Make { cfg: "int6", tag: "quad", ty: "Quad2" },
    Make { cfg: "int6", tag: "quad", ty: "Quad3" },
    Make { cfg: "int6", tag: "quad", ty: "Quad4" },
    Make { cfg: "int6", tag: "dupx", ty: "DupX1" },
    Make { cfg: "int6", tag: "sizeless", ty: "Sizeless" },
    Make { cfg: "int6", tag: "wide", ty: "Wide" },
    Make { cfg: "int6", tag: "only-int6", ty: "Only" },
    Make { cfg: "int6", tag: "XA", ty: "XA" },
    Make { cfg: "int6", tag: "dupx", ty: "DupX2" },
    Make { cfg: "int6", tag: "~last", ty: "XZ" },
    Make { cfg: "int7", tag: "C", ty: "C" },
    Make { cfg: "int7", tag: "value", ty: "Value" },
    Make { cfg: "int7", tag: "", ty: "Empty" },
    Make { cfg: "int7", tag: "ünï \"q\"\\\n%", ty: "Uni" },
    Make { cfg: "int7", tag: "K", ty: "Konst" },
    Make { cfg: "int7", tag: "cat", ty: "Cat" },
    Make { cfg: "int7", tag: "dup", ty: "Dup1" },
    Make { cfg: "int7", tag: "dup", ty: "Dup2" },
    Make { cfg: "int7", tag: "trip", ty: "Trip1" },
    Make { cfg: "int7", tag: "trip", ty: "Trip2" },
    Make { cfg: "int7", tag: "trip", ty: "Trip3" },
    Make { cfg: "int7", tag: "quad", ty: "Quad1" },
    Make { cfg: "int7", tag: "quad", ty: "Quad2" },
    Make { cfg: "int7", tag: "quad", ty: "Quad3" },
    Make { cfg: "int7", tag: "quad", ty: "Quad4" },
    Make { cfg: "int7", tag: "dupx", ty: "DupX1" },
    Make { cfg: "int7", tag: "sizeless", ty: "Sizeless" },
    Make { cfg: "int7", tag: "wide", ty: "Wide" },
    Make { cfg: "int7", tag: "only-int7", ty: "Only" },
    Make { cfg: "int7", tag: "B", ty: "A" },
    Make { cfg: "int7", tag: "A", ty: "B" },
    Make { cfg: "int7", tag: "XA", ty: "XA" },
    Make { cfg: "int7", tag: "dupx", ty: "DupX2" },
    Make { cfg: "int7", tag: "~last", ty: "XZ" },
    Make { cfg: "adj0", tag: "A", ty: "A" },
    Make { cfg: "adj0", tag: "B", ty: "B" },
    Make { cfg: "adj0", tag: "C", ty: "C" },
    Make { cfg: "adj0", tag: "value", ty: "Value" },
    Make { cfg: "adj0", tag: "", ty: "Empty" },
    Make { cfg: "adj0", tag: "ünï \"q\"\\\n%", ty: "Uni" },
    Make { cfg: "adj0", tag: "K", ty: "Konst" },
    Make { cfg: "adj0", tag: "cat", ty: "Cat" },
    Make { cfg: "adj0", tag: "dup", ty: "Dup1" },
    Make { cfg: "adj0", tag: "dup", ty: "Dup2" },
    Make { cfg: "adj0", tag: "trip", ty: "Trip1" },
    Make { cfg: "adj0", tag: "trip", ty: "Trip2" },
    Make { cfg: "adj0", tag: "trip", ty: "Trip3" },
    Make { cfg: "adj0", tag: "quad", ty: "Quad1" },
    Make { cfg: "adj0", tag: "quad", ty: "Quad2" },
    Make { cfg: "adj0", tag: "quad", ty: "Quad3" },
    Make { cfg: "adj0", tag: "quad", ty: "Quad4" },
    Make { cfg: "adj0", tag: "dupx", ty: "DupX1" },
    Make { cfg: "adj0", tag: "sizeless", ty: "Sizeless" },
    Make { cfg: "adj0", tag: "wide", ty: "Wide" },
    Make { cfg: "adj0", tag: "only-adj0", ty: "Only" },
    Make { cfg: "adj0", tag: "XA", ty: "XA" },
    Make { cfg: "adj0", tag: "dupx", ty: "DupX2" },
    Make { cfg: "adj0", tag: "~last", ty: "XZ" },
    Make { cfg: "adj1", tag: "A", ty: "A" },
    Make { cfg: "adj1", tag: "B", ty: "B" },
    Make { cfg: "adj1", tag: "C", ty: "C" },
    Make { cfg: "adj1", tag: "value", ty: "Value" },
    Make { cfg: "adj1", tag: "", ty: "Empty" },
    Make { cfg: "adj1", tag: "ünï \"q\"\\\n%", ty: "Uni" },
    Make { cfg: "adj1", tag: "K", ty: "Konst" },
    Make { cfg: "adj1", tag: "cat", ty: "Cat" },
    Make { cfg: "adj1", tag: "dup", ty: "Dup1" },
    Make { cfg: "adj1", tag: "dup", ty: "Dup2" },
    Make { cfg: "adj1", tag: "trip", ty: "Trip1" },
    Make { cfg: "adj1", tag: "trip", ty: "Trip2" },
    Make { cfg: "adj1", tag: "trip", ty: "Trip3" },
    Make { cfg: "adj1", tag: "quad", ty: "Quad1" },
    Make { cfg: "adj1", tag: "quad", ty: "Quad2" },
    Make { cfg: "adj1", tag: "quad", ty: "Quad3" },
    Make { cfg: "adj1", tag: "quad", ty: "Quad4" },
    Make { cfg: "adj1", tag: "dupx", ty: "DupX1" },
    Make { cfg: "adj1", tag: "sizeless", ty: "Sizeless" },
    Make { cfg: "adj1", tag: "wide", ty: "Wide" },
    Make { cfg: "adj1", tag: "only-adj1", ty: "Only" },
    Make { cfg: "adj1", tag: "XA", ty: "XA" },
    Make { cfg: "adj1", tag: "dupx", ty: "DupX2" },
    Make { cfg: "adj1", tag: "~last", ty: "XZ" },
    Make { cfg: "adj2", tag: "A", ty: "A" },
    Make { cfg: "adj2", tag: "B", ty: "B" },
    Make { cfg: "adj2", tag: "C", ty: "C" },
    Make { cfg: "adj2", tag: "value", ty: "Value" },
    Make { cfg: "adj2", tag: "", ty: "Empty" },
    Make { cfg: "adj2", tag: "ünï \"q\"\\\n%", ty: "Uni" },
    Make { cfg: "adj2", tag: "K", ty: "Konst" },
    Make { cfg: "adj2", tag: "cat", ty: "Cat" },
    Make { cfg: "adj2", tag: "dup", ty: "Dup1" },
    Make { cfg: "adj2", tag: "dup", ty: "Dup2" },
    Make { cfg: "adj2", tag: "trip", ty: "Trip1" },
    Make { cfg: "adj2", tag: "trip", ty: "Trip2" },
    Make { cfg: "adj2", tag: "trip", ty: "Trip3" },
    Make { cfg: "adj2", tag: "quad", ty: "Quad1" },
    Make { cfg: "adj2", tag: "quad", ty: "Quad2" },
    Make { cfg: "adj2", tag: "quad", ty: "Quad3" },
    Make { cfg: "adj2", tag: "quad", ty: "Quad4" },
    Make { cfg: "adj2", tag: "dupx", ty: "DupX1" },
    Make { cfg: "adj2", tag: "sizeless", ty: "Sizeless" },
    Make { cfg: "adj2", tag: "wide", ty: "Wide" },
    Make { cfg: "adj2", tag: "only-adj2", ty: "Only" },
    Make { cfg: "adj2", tag: "XA", ty: "XA" },
    Make { cfg: "adj2", tag: "dupx", ty: "DupX2" },
    Make { cfg: "adj2", tag: "~last", ty: "XZ" },
    Make { cfg: "adj3", tag: "A", ty: "A" },
    Make { cfg: "adj3", tag: "B", ty: "B" },
    Make { cfg: "adj3", tag: "C", ty: "C" },
    Make { cfg: "adj3", tag: "value", ty: "Value" },
    Make { cfg: "adj3", tag: "", ty: "Empty" },
    Make { cfg: "adj3", tag: "ünï \"q\"\\\n%", ty: "Uni" },
    Make { cfg: "adj3", tag: "K", ty: "Konst" },
    Make { cfg: "adj3", tag: "cat", ty: "Cat" },
    Make { cfg: "adj3", tag: "dup", ty: "Dup1" },
    Make { cfg: "adj3", tag: "dup", ty: "Dup2" },
    Make { cfg: "adj3", tag: "trip", ty: "Trip1" },
    Make { cfg: "adj3", tag: "trip", ty: "Trip2" },
    Make { cfg: "adj3", tag: "trip", ty: "Trip3" },
    Make { cfg: "adj3", tag: "quad", ty: "Quad1" },
    Make { cfg: "adj3", tag: "quad", ty: "Quad2" },
    Make { cfg: "adj3", tag: "quad", ty: "Quad3" },
    Make { cfg: "adj3", tag: "quad", ty: "Quad4" },
    Make { cfg: "adj3", tag: "dupx", ty: "DupX1" },
    Make { cfg: "adj3", tag: "sizeless", ty: "Sizeless" },
    Make { cfg: "adj3", tag: "wide", ty: "Wide" },
    Make { cfg: "adj3", tag: "only-adj3", ty: "Only" },
    Make { cfg: "adj3", tag: "XA", ty: "XA" },
    Make { cfg: "adj3", tag: "dupx", ty: "DupX2" },
    Make { cfg: "adj3", tag: "~last", ty: "XZ" },
    Make { cfg: "adj4", tag: "A", ty: "A" },
    Make { cfg: "adj4", tag: "B", ty: "B" },
    Make { cfg: "adj4", tag: "C", ty: "C" },
    Make { cfg: "adj4", tag: "value", ty: "Value" },
    Make { cfg: "adj4", tag: "", ty: "Empty" },
    Make { cfg: "adj4", tag: "ünï \"q\"\\\n%", ty: "Uni" },
    Make { cfg: "adj4", tag: "K", ty: "Konst" },
    Make { cfg: "adj4", tag: "cat", ty: "Cat" },
    Make { cfg: "adj4", tag: "dup", ty: "Dup1" },
    Make { cfg: "adj4", tag: "dup", ty: "Dup2" },
    Make { cfg: "adj4", tag: "trip", ty: "Trip1" },
    Make { cfg: "adj4", tag: "trip", ty: "Trip2" },
    Make { cfg: "adj4", tag: "trip", ty: "Trip3" },
    Make { cfg: "adj4", tag: "quad", ty: "Quad1" },
    Make { cfg: "adj4", tag: "quad", ty: "Quad2" },
    Make { cfg: "adj4", tag: "quad", ty: "Quad3" },
    Make { cfg: "adj4", tag: "quad", ty: "Quad4" },
    Make { cfg: "adj4", tag: "dupx", ty: "DupX1" },
    Make { cfg: "adj4", tag: "sizeless", ty: "Sizeless" },
    Make { cfg: "adj4", tag: "wide", ty: "Wide" },
    Make { cfg: "adj4", tag: "only-adj4", ty: "Only" },
    Make { cfg: "adj4", tag: "XA", ty: "XA" },
    Make { cfg: "adj4", tag: "dupx", ty: "DupX2" },
    Make { cfg: "adj4", tag: "~last", ty: "XZ" },
    Make { cfg: "adj5", tag: "A", ty: "A" },
    Make { cfg: "adj5", tag: "B", ty: "B" },
    Make { cfg: "adj5", tag: "C", ty: "C" },
    Make { cfg: "adj5", tag: "value", ty: "Value" },
    Make { cfg: "adj5", tag: "", ty: "Empty" },
    Make { cfg: "adj5", tag: "ünï \"q\"\\\n%", ty: "Uni" },
    Make { cfg: "adj5", tag: "K", ty: "Konst" },
    Make { cfg: "adj5", tag: "cat", ty: "Cat" },
    Make { cfg: "adj5", tag: "dup", ty: "Dup1" },
    Make { cfg: "adj5", tag: "dup", ty: "Dup2" },
    Make { cfg: "adj5", tag: "trip", ty: "Trip1" },
    Make { cfg: "adj5", tag: "trip", ty: "Trip2" },
    Make { cfg: "adj5", tag: "trip", ty: "Trip3" },
    Make { cfg: "adj5", tag: "quad", ty: "Quad1" },
    Make { cfg: "adj5", tag: "quad", ty: "Quad2" },
    Make { cfg: "adj5", tag: "quad", ty: "Quad3" },
    Make { cfg: "adj5", tag: "quad", ty: "Quad4" },
    Make { cfg: "adj5", tag: "dupx", ty: "DupX1" },
    Make { cfg: "adj5", tag: "sizeless", ty: "Sizeless" },
    Make { cfg: "adj5", tag: "wide", ty: "Wide" },
    Make { cfg: "adj5", tag: "only-adj5", ty: "Only" },
    Make { cfg: "adj5", tag: "XA", ty: "XA" },
    Make { cfg: "adj5", tag: "dupx", ty: "DupX2" },
    Make { cfg: "adj5", tag: "~last", ty: "XZ" },
    Make { cfg: "adj6", tag: "C", ty: "C" },
    Make { cfg: "adj6", tag: "value", ty: "Value" },
    Make { cfg: "adj6", tag: "", ty: "Empty" },
    Make { cfg: "adj6", tag: "ünï \"q\"\\\n%", ty: "Uni" },
    Make { cfg: "adj6", tag: "K", ty: "Konst" },
    Make { cfg: "adj6", tag: "cat", ty: "Cat" },
    Make { cfg: "adj6", tag: "dup", ty: "Dup1" },
    Make { cfg: "adj6", tag: "dup", ty: "Dup2" },
    Make { cfg: "adj6", tag: "trip", ty: "Trip1" },
    Make { cfg: "adj6", tag: "trip", ty: "Trip2" },
    Make { cfg: "adj6", tag: "trip", ty: "Trip3" },
    Make { cfg: "adj6", tag: "quad", ty: "Quad1" },
    Make { cfg: "adj6", tag: "quad", ty: "Quad2" },
    Make { cfg: "adj6", tag: "quad", ty: "Quad3" },
    Make { cfg: "adj6", tag: "quad", ty: "Quad4" },
    Make { cfg: "adj6", tag: "dupx", ty: "DupX1" },
    Make { cfg: "adj6", tag: "sizeless", ty: "Sizeless" },
    Make { cfg: "adj6", tag: "wide", ty: "Wide" },
    Make { cfg: "adj6", tag: "only-adj6", ty: "Only" },
    Make { cfg: "adj6", tag: "B", ty: "A" },
    Make { cfg: "adj6", tag: "A", ty: "B" },
    Make { cfg: "adj6", tag: "XA", ty: "XA" },
    Make { cfg: "adj6", tag: "dupx", ty: "DupX2" },
    Make { cfg: "adj6", tag: "~last", ty: "XZ" },
    Make { cfg: "adj7", tag: "A", ty: "A" },
    Make { cfg: "adj7", tag: "B", ty: "B" },
    Make { cfg: "adj7", tag: "C", ty: "C" },
    Make { cfg: "adj7", tag: "value", ty: "Value" },
    Make { cfg: "adj7", tag: "", ty: "Empty" },
    Make { cfg: "adj7", tag: "ünï \"q\"\\\n%", ty: "Uni" },
    Make { cfg: "adj7", tag: "K", ty: "Konst" },
    Make { cfg: "adj7", tag: "cat", ty: "Cat" },
    Make { cfg: "adj7", tag: "dup", ty: "Dup1" },
    Make { cfg: "adj7", tag: "dup", ty: "Dup2" },
    Make { cfg: "adj7", tag: "trip", ty: "Trip1" },
    Make { cfg: "adj7", tag: "trip", ty: "Trip2" },
    Make { cfg: "adj7", tag: "trip", ty: "Trip3" },
    Make { cfg: "adj7", tag: "quad", ty: "Quad1" },
    Make { cfg: "adj7", tag: "quad", ty: "Quad2" },
    Make { cfg: "adj7", tag: "quad", ty: "Quad3" },
    Make { cfg: "adj7", tag: "quad", ty: "Quad4" },
    Make { cfg: "adj7", tag: "dupx", ty: "DupX1" },
    Make { cfg: "adj7", tag: "sizeless", ty: "Sizeless" },
    Make { cfg: "adj7", tag: "wide", ty: "Wide" },
    Make { cfg: "adj7", tag: "only-adj7", ty: "Only" },
    Make { cfg: "adj7", tag: "XA", ty: "XA" },
    Make { cfg: "adj7", tag: "dupx", ty: "DupX2" },
    Make { cfg: "adj7", tag: "~last", ty: "XZ" },
    Make { cfg: "adj8", tag: "A", ty: "A" },
    Make { cfg: "adj8", tag: "B", ty: "B" },
    Make { cfg: "adj8", tag: "C", ty: "C" },
    Make { cfg: "adj8", tag: "value", ty: "Value" },
    Make { cfg: "adj8", tag: "", ty: "Empty" },
    Make { cfg: "adj8", tag: "ünï \"q\"\\\n%", ty: "Uni" },
    Make { cfg: "adj8", tag: "K", ty: "Konst" },
    Make { cfg: "adj8", tag: "cat", ty: "Cat" },
    Make { cfg: "adj8", tag: "dup", ty: "Dup1" },
    Make { cfg: "adj8", tag: "dup", ty: "Dup2" },
    Make { cfg: "adj8", tag: "trip", ty: "Trip1" },
    Make { cfg: "adj8", tag: "trip", ty: "Trip2" },
    Make { cfg: "adj8", tag: "trip", ty: "Trip3" },
    Make { cfg: "adj8", tag: "quad", ty: "Quad1" },
    Make { cfg: "adj8", tag: "quad", ty: "Quad2" },
    Make { cfg: "adj8", tag: "quad", ty: "Quad3" },
    Make { cfg: "adj8", tag: "quad", ty: "Quad4" },
    Make { cfg: "adj8", tag: "dupx", ty: "DupX1" },
    Make { cfg: "adj8", tag: "sizeless", ty: "Sizeless" },
    Make { cfg: "adj8", tag: "wide", ty: "Wide" },
    Make { cfg: "adj8", tag: "only-adj8", ty: "Only" },
    Make { cfg: "adj8", tag: "XA", ty: "XA" },
    Make { cfg: "adj8", tag: "dupx", ty: "DupX2" },
    Make { cfg: "adj8", tag: "~last", ty: "XZ" },
    Make { cfg: "adj9", tag: "A", ty: "A" },
    Make { cfg: "adj9", tag: "B", ty: "B" },
    Make { cfg: "adj9", tag: "C", ty: "C" },
    Make { cfg: "adj9", tag: "value", ty: "Value" },
    Make { cfg: "adj9", tag: "", ty: "Empty" },
    Make { cfg: "adj9", tag: "ünï \"q\"\\\n%", ty: "Uni" },
    Make { cfg: "adj9", tag: "K", ty: "Konst" },
    Make { cfg: "adj9", tag: "cat", ty: "Cat" },
    Make { cfg: "adj9", tag: "dup", ty: "Dup1" },
    Make { cfg: "adj9", tag: "dup", ty: "Dup2" },
    Make { cfg: "adj9", tag: "trip", ty: "Trip1" },
    Make { cfg: "adj9", tag: "trip", ty: "Trip2" },
    Make { cfg: "adj9", tag: "trip", ty: "Trip3" },
    Make { cfg: "adj9", tag: "quad", ty: "Quad1" },
    Make { cfg: "adj9", tag: "quad", ty: "Quad2" },
    Make { cfg: "adj9", tag: "quad", ty: "Quad3" },
    Make { cfg: "adj9", tag: "quad", ty: "Quad4" },
    Make { cfg: "adj9", tag: "dupx", ty: "DupX1" },
    Make { cfg: "adj9", tag: "sizeless", ty: "Sizeless" },
    Make { cfg: "adj9", tag: "wide", ty: "Wide" },
    Make { cfg: "adj9", tag: "only-adj9", ty: "Only" },
    Make { cfg: "adj9", tag: "XA", ty: "XA" },
    Make { cfg: "adj9", tag: "dupx", ty: "DupX2" },
    Make { cfg: "adj9", tag: "~last", ty: "XZ" },
    Make { cfg: "sero", tag: "A", ty: "A" },
    Make { cfg: "sero", tag: "B", ty: "B" },
    Make { cfg: "sero", tag: "C", ty: "C" },
    Make { cfg: "sero", tag: "dup", ty: "Dup1" },
    Make { cfg: "sero", tag: "dup", ty: "Dup2" },
    Make { cfg: "sero", tag: "K", ty: "Konst" },
    Make { cfg: "sero", tag: "sizeless", ty: "Sizeless" },
    Make { cfg: "sero", tag: "wide", ty: "Wide" },
    Make { cfg: "sero", tag: "only-sero", ty: "Only" },
    Make { cfg: "serx", tag: "A", ty: "A" },
    Make { cfg: "serx", tag: "B", ty: "B" },
    Make { cfg: "serx", tag: "C", ty: "C" },
    Make { cfg: "serx", tag: "dup", ty: "Dup1" },
    Make { cfg: "serx", tag: "dup", ty: "Dup2" },
    Make { cfg: "serx", tag: "K", ty: "Konst" },
    Make { cfg: "serx", tag: "sizeless", ty: "Sizeless" },
    Make { cfg: "serx", tag: "wide", ty: "Wide" },
    Make { cfg: "serx", tag: "only-serx", ty: "Only" },
    Make { cfg: "sera", tag: "A", ty: "A" },
    Make { cfg: "sera", tag: "B", ty: "B" },
    Make { cfg: "sera", tag: "C", ty: "C" },
    Make { cfg: "sera", tag: "dup", ty: "Dup1" },
    Make { cfg: "sera", tag: "dup", ty: "Dup2" },
    Make { cfg: "sera", tag: "K", ty: "Konst" },
    Make { cfg: "sera", tag: "sizeless", ty: "Sizeless" },
    Make { cfg: "sera", tag: "wide", ty: "Wide" },
    Make { cfg: "sera", tag: "only-sera", ty: "Only" },
    Make { cfg: "deo", tag: "A", ty: "A" },
    Make { cfg: "deo", tag: "B", ty: "B" },
    Make { cfg: "deo", tag: "C", ty: "C" },
    Make { cfg: "deo", tag: "dup", ty: "Dup1" },
    Make { cfg: "deo", tag: "dup", ty: "Dup2" },
    Make { cfg: "deo", tag: "K", ty: "Konst" },
    Make { cfg: "deo", tag: "sizeless", ty: "Sizeless" },
    Make { cfg: "deo", tag: "wide", ty: "Wide" },
    Make { cfg: "deo", tag: "only-deo", ty: "Only" },
    Make { cfg: "dex", tag: "A", ty: "A" },
    Make { cfg: "dex", tag: "B", ty: "B" },
    Make { cfg: "dex", tag: "C", ty: "C" },
    Make { cfg: "dex", tag: "dup", ty: "Dup1" },
    Make { cfg: "dex", tag: "dup", ty: "Dup2" },
    Make { cfg: "dex", tag: "K", ty: "Konst" },
    Make { cfg: "dex", tag: "sizeless", ty: "Sizeless" },
    Make { cfg: "dex", tag: "wide", ty: "Wide" },
    Make { cfg: "dex", tag: "only-dex", ty: "Only" },
    Make { cfg: "dea", tag: "A", ty: "A" },
    Make { cfg: "dea", tag: "B", ty: "B" },
    Make { cfg: "dea", tag: "C", ty: "C" },
    Make { cfg: "dea", tag: "dup", ty: "Dup1" },
    Make { cfg: "dea", tag: "dup", ty: "Dup2" },
    Make { cfg: "dea", tag: "K", ty: "Konst" },
    Make { cfg: "dea", tag: "sizeless", ty: "Sizeless" },
    Make { cfg: "dea", tag: "wide", ty: "Wide" },
    Make { cfg: "dea", tag: "only-dea", ty: "Only" },
    Make { cfg: "big", tag: "n000", ty: "N::<0>" },
    Make { cfg: "big", tag: "n001", ty: "N::<1>" },
    Make { cfg: "big", tag: "n002", ty: "N::<2>" },
    Make { cfg: "big", tag: "n003", ty: "N::<3>" },
    Make { cfg: "big", tag: "n004", ty: "N::<4>" },
    Make { cfg: "big", tag: "n005", ty: "N::<5>" },
    Make { cfg: "big", tag: "n006", ty: "N::<6>" },
    Make { cfg: "big", tag: "n007", ty: "N::<7>" },
    Make { cfg: "big", tag: "n008", ty: "N::<8>" },
    Make { cfg: "big", tag: "n009", ty: "N::<9>" },
    Make { cfg: "big", tag: "n010", ty: "N::<10>" },
    Make { cfg: "big", tag: "n011", ty: "N::<11>" },
    Make { cfg: "big", tag: "n012", ty: "N::<12>" },
    Make { cfg: "big", tag: "n013", ty: "N::<13>" },
    Make { cfg: "big", tag: "n014", ty: "N::<14>" },
    Make { cfg: "big", tag: "n015", ty: "N::<15>" },
    Make { cfg: "big", tag: "n016", ty: "N::<16>" },
    Make { cfg: "big", tag: "n017", ty: "N::<17>" },
    Make { cfg: "big", tag: "n018", ty: "N::<18>" },
    Make { cfg: "big", tag: "n019", ty: "N::<19>" },
    Make { cfg: "big", tag: "n020", ty: "N::<20>" },
    Make { cfg: "big", tag: "n021", ty: "N::<21>" },
    Make { cfg: "big", tag: "n022", ty: "N::<22>" },
    Make { cfg: "big", tag: "n023", ty: "N::<23>" },
    Make { cfg: "big", tag: "n024", ty: "N::<24>" },
    Make { cfg: "big", tag: "n025", ty: "N::<25>" },
    Make { cfg: "big", tag: "n026", ty: "N::<26>" },
    Make { cfg: "big", tag: "n027", ty: "N::<27>" },
    Make { cfg: "big", tag: "n028", ty: "N::<28>" },
    Make { cfg: "big", tag: "n029", ty: "N::<29>" },
    Make { cfg: "big", tag: "n030", ty: "N::<30>" },
    Make { cfg: "big", tag: "n031", ty: "N::<31>" },
    Make { cfg: "big", tag: "n032", ty: "N::<32>" },
    Make { cfg: "big", tag: "n033", ty: "N::<33>" },
    Make { cfg: "big", tag: "n034", ty: "N::<34>" },
    Make { cfg: "big", tag: "n035", ty: "N::<35>" },
    Make { cfg: "big", tag: "n036", ty: "N::<36>" },
    Make { cfg: "big", tag: "n037", ty: "N::<37>" },
    Make { cfg: "big", tag: "n038", ty: "N::<38>" },
    Make { cfg: "big", tag: "n039", ty: "N::<39>" },
    Make { cfg: "big", tag: "n040", ty: "N::<40>" },
    Make { cfg: "big", tag: "n041", ty: "N::<41>" },
    Make { cfg: "big", tag: "n042", ty: "N::<42>" },
    Make { cfg: "big", tag: "n043", ty: "N::<43>" },
    Make { cfg: "big", tag: "n044", ty: "N::<44>" },
    Make { cfg: "big", tag: "n045", ty: "N::<45>" },
    Make { cfg: "big", tag: "n046", ty: "N::<46>" },
    Make { cfg: "big", tag: "n047", ty: "N::<47>" },
    Make { cfg: "big", tag: "n048", ty: "N::<48>" },
    Make { cfg: "big", tag: "n049", ty: "N::<49>" },
    Make { cfg: "big", tag: "n050", ty: "N::<50>" },
    Make { cfg: "big", tag: "n051", ty: "N::<51>" },
    Make { cfg: "big", tag: "n052", ty: "N::<52>" },
    Make { cfg: "big", tag: "n053", ty: "N::<53>" },
    Make { cfg: "big", tag: "n054", ty: "N::<54>" },
    Make { cfg: "big", tag: "n055", ty: "N::<55>" },
    Make { cfg: "big", tag: "n056", ty: "N::<56>" },
    Make { cfg: "big", tag: "n057", ty: "N::<57>" },
    Make { cfg: "big", tag: "n058", ty: "N::<58>" },
    Make { cfg: "big", tag: "n059", ty: "N::<59>" },
    Make { cfg: "big", tag: "n060", ty: "N::<60>" },
    Make { cfg: "big", tag: "n061", ty: "N::<61>" },
    Make { cfg: "big", tag: "n062", ty: "N::<62>" },
    Make { cfg: "big", tag: "n063", ty: "N::<63>" },
    Make { cfg: "big", tag: "n064", ty: "N::<64>" },
    Make { cfg: "big", tag: "n065", ty: "N::<65>" },
    Make { cfg: "big", tag: "n066", ty: "N::<66>" },
    Make { cfg: "big", tag: "n067", ty: "N::<67>" },
    Make { cfg: "big", tag: "n068", ty: "N::<68>" },
    Make { cfg: "big", tag: "n069", ty: "N::<69>" },
    Make { cfg: "big", tag: "n070", ty: "N::<70>" },
    Make { cfg: "big", tag: "n071", ty: "N::<71>" },
    Make { cfg: "big", tag: "n072", ty: "N::<72>" },
    Make { cfg: "big", tag: "n073", ty: "N::<73>" },
    Make { cfg: "big", tag: "n074", ty: "N::<74>" },
    Make { cfg: "big", tag: "n075", ty: "N::<75>" },
    Make { cfg: "big", tag: "n076", ty: "N::<76>" },
    Make { cfg: "big", tag: "n077", ty: "N::<77>" },
    Make { cfg: "big", tag: "n078", ty: "N::<78>" },
    Make { cfg: "big", tag: "n079", ty: "N::<79>" },
    Make { cfg: "big", tag: "n080", ty: "N::<80>" },
    Make { cfg: "big", tag: "n081", ty: "N::<81>" },
    Make { cfg: "big", tag: "n082", ty: "N::<82>" },
    Make { cfg: "big", tag: "n083", ty: "N::<83>" },
    Make { cfg: "big", tag: "n084", ty: "N::<84>" },
    Make { cfg: "big", tag: "n085", ty: "N::<85>" },
    Make { cfg: "big", tag: "n086", ty: "N::<86>" },
    Make { cfg: "big", tag: "n087", ty: "N::<87>" },
    Make { cfg: "big", tag: "n088", ty: "N::<88>" },
    Make { cfg: "big", tag: "n089", ty: "N::<89>" },
    Make { cfg: "big", tag: "n090", ty: "N::<90>" },
    Make { cfg: "big", tag: "n091", ty: "N::<91>" },
    Make { cfg: "big", tag: "n092", ty: "N::<92>" },
    Make { cfg: "big", tag: "n093", ty: "N::<93>" },
    Make { cfg: "big", tag: "n094", ty: "N::<94>" },
    Make { cfg: "big", tag: "n095", ty: "N::<95>" },
    Make { cfg: "big", tag: "n096", ty: "N::<96>" },
    Make { cfg: "big", tag: "n097", ty: "N::<97>" },
    Make { cfg: "big", tag: "n098", ty: "N::<98>" },
    Make { cfg: "big", tag: "n099", ty: "N::<99>" },
    Make { cfg: "big", tag: "n100", ty: "N::<100>" },
    Make { cfg: "big", tag: "n101", ty: "N::<101>" },
    Make { cfg: "big", tag: "n102", ty: "N::<102>" },
    Make { cfg: "big", tag: "n103", ty: "N::<103>" },
    Make { cfg: "big", tag: "n104", ty: "N::<104>" },
    Make { cfg: "big", tag: "n105", ty: "N::<105>" },
    Make { cfg: "big", tag: "n106", ty: "N::<106>" },
    Make { cfg: "big", tag: "n107", ty: "N::<107>" },
    Make { cfg: "big", tag: "n108", ty: "N::<108>" },
    Make { cfg: "big", tag: "n109", ty: "N::<109>" },
    Make { cfg: "big", tag: "n110", ty: "N::<110>" },
    Make { cfg: "big", tag: "n111", ty: "N::<111>" },
    Make { cfg: "big", tag: "n112", ty: "N::<112>" },
    Make { cfg: "big", tag: "n113", ty: "N::<113>" },
    Make { cfg: "big", tag: "n114", ty: "N::<114>" },
    Make { cfg: "big", tag: "n115", ty: "N::<115>" },
    Make { cfg: "big", tag: "n116", ty: "N::<116>" },
    Make { cfg: "big", tag: "n117", ty: "N::<117>" },
    Make { cfg: "big", tag: "n118", ty: "N::<118>" },
    Make { cfg: "big", tag: "n119", ty: "N::<119>" },
    Make { cfg: "big", tag: "n120", ty: "N::<120>" },
    Make { cfg: "big", tag: "n121", ty: "N::<121>" },
    Make { cfg: "big", tag: "n122", ty: "N::<122>" },
    Make { cfg: "big", tag: "n123", ty: "N::<123>" },
    Make { cfg: "big", tag: "n124", ty: "N::<124>" },
    Make { cfg: "big", tag: "n125", ty: "N::<125>" },
    Make { cfg: "big", tag: "n126", ty: "N::<126>" },
    Make { cfg: "big", tag: "n127", ty: "N::<127>" },
    Make { cfg: "big", tag: "n128", ty: "N::<128>" },
    Make { cfg: "big", tag: "n129", ty: "N::<129>" },
    Make { cfg: "big", tag: "n130", ty: "N::<130>" },
    Make { cfg: "big", tag: "n131", ty: "N::<131>" },
    Make { cfg: "big", tag: "n132", ty: "N::<132>" },
    Make { cfg: "big", tag: "n133", ty: "N::<133>" },
    Make { cfg: "big", tag: "n134", ty: "N::<134>" },
    Make { cfg: "big", tag: "n135", ty: "N::<135>" },
    Make { cfg: "big", tag: "n136", ty: "N::<136>" },
    Make { cfg: "big", tag: "n137", ty: "N::<137>" },
    Make { cfg: "big", tag: "n138", ty: "N::<138>" },
    Make { cfg: "big", tag: "n139", ty: "N::<139>" },
    Make { cfg: "big", tag: "n140", ty: "N::<140>" },
    Make { cfg: "big", tag: "n141", ty: "N::<141>" },
    Make { cfg: "big", tag: "n142", ty: "N::<142>" },
    Make { cfg: "big", tag: "n143", ty: "N::<143>" },
    Make { cfg: "big", tag: "n144", ty: "N::<144>" },
    Make { cfg: "big", tag: "n145", ty: "N::<145>" },
    Make { cfg: "big", tag: "n146", ty: "N::<146>" },
    Make { cfg: "big", tag: "n147", ty: "N::<147>" },
    Make { cfg: "big", tag: "n148", ty: "N::<148>" },
    Make { cfg: "big", tag: "n149", ty: "N::<149>" },
    Make { cfg: "big", tag: "n150", ty: "N::<150>" },
    Make { cfg: "big", tag: "n151", ty: "N::<151>" },
    Make { cfg: "big", tag: "n152", ty: "N::<152>" },
    Make { cfg: "big", tag: "n153", ty: "N::<153>" },
    Make { cfg: "big", tag: "n154", ty: "N::<154>" },
    Make { cfg: "big", tag: "n155", ty: "N::<155>" },
    Make { cfg: "big", tag: "n156", ty: "N::<156>" },
    Make { cfg: "big", tag: "n157", ty: "N::<157>" },
    Make { cfg: "big", tag: "n158", ty: "N::<158>" },
    Make { cfg: "big", tag: "n159", ty: "N::<159>" },
    Make { cfg: "big", tag: "n160", ty: "N::<160>" },
    Make { cfg: "big", tag: "n161", ty: "N::<161>" },
    Make { cfg: "big", tag: "n162", ty: "N::<162>" },
    Make { cfg: "big", tag: "n163", ty: "N::<163>" },
    Make { cfg: "big", tag: "n164", ty: "N::<164>" },
    Make { cfg: "big", tag: "n165", ty: "N::<165>" },
    Make { cfg: "big", tag: "n166", ty: "N::<166>" },
    Make { cfg: "big", tag: "n167", ty: "N::<167>" },
    Make { cfg: "big", tag: "n168", ty: "N::<168>" },
    Make { cfg: "big", tag: "n169", ty: "N::<169>" },
    Make { cfg: "big", tag: "n170", ty: "N::<170>" },
    Make { cfg: "big", tag: "n171", ty: "N::<171>" },
    Make { cfg: "big", tag: "n172", ty: "N::<172>" },
    Make { cfg: "big", tag: "n173", ty: "N::<173>" },
    Make { cfg: "big", tag: "n174", ty: "N::<174>" },
    Make { cfg: "big", tag: "n175", ty: "N::<175>" },
    Make { cfg: "big", tag: "n176", ty: "N::<176>" },
    Make { cfg: "big", tag: "n177", ty: "N::<177>" },
    Make { cfg: "big", tag: "n178", ty: "N::<178>" },
    Make { cfg: "big", tag: "n179", ty: "N::<179>" },
    Make { cfg: "big", tag: "n180", ty: "N::<180>" },
    Make { cfg: "big", tag: "n181", ty: "N::<181>" },
    Make { cfg: "big", tag: "n182", ty: "N::<182>" },
    Make { cfg: "big", tag: "n183", ty: "N::<183>" },
    Make { cfg: "big", tag: "n184", ty: "N::<184>" },
    Make { cfg: "big", tag: "n185", ty: "N::<185>" },
    Make { cfg: "big", tag: "n186", ty: "N::<186>" },
    Make { cfg: "big", tag: "n187", ty: "N::<187>" },
    Make { cfg: "big", tag: "n188", ty: "N::<188>" },
    Make { cfg: "big", tag: "n189", ty: "N::<189>" },
    Make { cfg: "big", tag: "n190", ty: "N::<190>" },
    Make { cfg: "big", tag: "n191", ty: "N::<191>" },
    Make { cfg: "big", tag: "n192", ty: "N::<192>" },
    Make { cfg: "big", tag: "n193", ty: "N::<193>" },
    Make { cfg: "big", tag: "n194", ty: "N::<194>" },
    Make { cfg: "big", tag: "n195", ty: "N::<195>" },
    Make { cfg: "big", tag: "n196", ty: "N::<196>" },
    Make { cfg: "big", tag: "n197", ty: "N::<197>" },
    Make { cfg: "big", tag: "n198", ty: "N::<198>" },
    Make { cfg: "big", tag: "n199", ty: "N::<199>" },
    Make { cfg: "big", tag: "n200", ty: "N::<200>" },
    Make { cfg: "big", tag: "n201", ty: "N::<201>" },
    Make { cfg: "big", tag: "n202", ty: "N::<202>" },
    Make { cfg: "big", tag: "n203", ty: "N::<203>" },
    Make { cfg: "big", tag: "n204", ty: "N::<204>" },
    Make { cfg: "big", tag: "n205", ty: "N::<205>" },
    Make { cfg: "big", tag: "n206", ty: "N::<206>" },
    Make { cfg: "big", tag: "n207", ty: "N::<207>" },
    Make { cfg: "big", tag: "n208", ty: "N::<208>" },
    Make { cfg: "big", tag: "n209", ty: "N::<209>" },
    Make { cfg: "big", tag: "n210", ty: "N::<210>" },
    Make { cfg: "big", tag: "n211", ty: "N::<211>" },
    Make { cfg: "big", tag: "n212", ty: "N::<212>" },
    Make { cfg: "big", tag: "n213", ty: "N::<213>" },
    Make { cfg: "big", tag: "n214", ty: "N::<214>" },
    Make { cfg: "big", tag: "n215", ty: "N::<215>" },
    Make { cfg: "big", tag: "n216", ty: "N::<216>" },
    Make { cfg: "big", tag: "n217", ty: "N::<217>" },
    Make { cfg: "big", tag: "n218", ty: "N::<218>" },
    Make { cfg: "big", tag: "n219", ty: "N::<219>" },
    Make { cfg: "big", tag: "n220", ty: "N::<220>" },
    Make { cfg: "big", tag: "n221", ty: "N::<221>" },
    Make { cfg: "big", tag: "n222", ty: "N::<222>" },
    Make { cfg: "big", tag: "n223", ty: "N::<223>" },
    Make { cfg: "big", tag: "n224", ty: "N::<224>" },
    Make { cfg: "big", tag: "n225", ty: "N::<225>" },
    Make { cfg: "big", tag: "n226", ty: "N::<226>" },
    Make { cfg: "big", tag: "n227", ty: "N::<227>" },
    Make { cfg: "big", tag: "n228", ty: "N::<228>" },
    Make { cfg: "big", tag: "n229", ty: "N::<229>" },
    Make { cfg: "big", tag: "n230", ty: "N::<230>" },
    Make { cfg: "big", tag: "n231", ty: "N::<231>" },
    Make { cfg: "big", tag: "n232", ty: "N::<232>" },
    Make { cfg: "big", tag: "n233", ty: "N::<233>" },
    Make { cfg: "big", tag: "n234", ty: "N::<234>" },
    Make { cfg: "big", tag: "n235", ty: "N::<235>" },
    Make { cfg: "big", tag: "n236", ty: "N::<236>" },
    Make { cfg: "big", tag: "n237", ty: "N::<237>" },
    Make { cfg: "big", tag: "n238", ty: "N::<238>" },
    Make { cfg: "big", tag: "n239", ty: "N::<239>" },
    Make { cfg: "big", tag: "n240", ty: "N::<240>" },
    Make { cfg: "big", tag: "n241", ty: "N::<241>" },
    Make { cfg: "big", tag: "n242", ty: "N::<242>" },
    Make { cfg: "big", tag: "n243", ty: "N::<243>" },
    Make { cfg: "big", tag: "n244", ty: "N::<244>" },
    Make { cfg: "big", tag: "n245", ty: "N::<245>" },
    Make { cfg: "big", tag: "n246", ty: "N::<246>" },
    Make { cfg: "big", tag: "n247", ty: "N::<247>" },
    Make { cfg: "big", tag: "n248", ty: "N::<248>" },
    Make { cfg: "big", tag: "n249", ty: "N::<249>" },
    Make { cfg: "big", tag: "n250", ty: "N::<250>" },
    Make { cfg: "big", tag: "n251", ty: "N::<251>" },
    Make { cfg: "big", tag: "n252", ty: "N::<252>" },
    Make { cfg: "big", tag: "n253", ty: "N::<253>" },
    Make { cfg: "big", tag: "n254", ty: "N::<254>" },
    Make { cfg: "big", tag: "n255", ty: "N::<255>" },
    Make { cfg: "big", tag: "n256", ty: "N::<256>" },
    Make { cfg: "big", tag: "n257", ty: "N::<257>" },
    Make { cfg: "big", tag: "n258", ty: "N::<258>" },
    Make { cfg: "big", tag: "n259", ty: "N::<259>" },
    Make { cfg: "big", tag: "n260", ty: "N::<260>" },
    Make { cfg: "big", tag: "n261", ty: "N::<261>" },
    Make { cfg: "big", tag: "n262", ty: "N::<262>" },
    Make { cfg: "big", tag: "n263", ty: "N::<263>" },
    Make { cfg: "big", tag: "n264", ty: "N::<264>" },
    Make { cfg: "big", tag: "n265", ty: "N::<265>" },
    Make { cfg: "big", tag: "n266", ty: "N::<266>" },
    Make { cfg: "big", tag: "n267", ty: "N::<267>" },
    Make { cfg: "big", tag: "n268", ty: "N::<268>" },
    Make { cfg: "big", tag: "n269", ty: "N::<269>" },
    Make { cfg: "big", tag: "n270", ty: "N::<270>" },
    Make { cfg: "big", tag: "n271", ty: "N::<271>" },
    Make { cfg: "big", tag: "n272", ty: "N::<272>" },
    Make { cfg: "big", tag: "n273", ty: "N::<273>" },
    Make { cfg: "big", tag: "n274", ty: "N::<274>" },
    Make { cfg: "big", tag: "n275", ty: "N::<275>" },
    Make { cfg: "big", tag: "n276", ty: "N::<276>" },
    Make { cfg: "big", tag: "n277", ty: "N::<277>" },
    Make { cfg: "big", tag: "n278", ty: "N::<278>" },
    Make { cfg: "big", tag: "n279", ty: "N::<279>" },
    Make { cfg: "big", tag: "n280", ty: "N::<280>" },
    Make { cfg: "big", tag: "n281", ty: "N::<281>" },
    Make { cfg: "big", tag: "n282", ty: "N::<282>" },
    Make { cfg: "big", tag: "n283", ty: "N::<283>" },
    Make { cfg: "big", tag: "n284", ty: "N::<284>" },
    Make { cfg: "big", tag: "n285", ty: "N::<285>" },
    Make { cfg: "big", tag: "n286", ty: "N::<286>" },
    Make { cfg: "big", tag: "n287", ty: "N::<287>" },
    Make { cfg: "big", tag: "n000", ty: "N::<288>" },
    Make { cfg: "big", tag: "n010", ty: "N::<289>" },
    Make { cfg: "big", tag: "n020", ty: "N::<290>" },
    Make { cfg: "big", tag: "n030", ty: "N::<291>" },
    Make { cfg: "big", tag: "n040", ty: "N::<292>" },
    Make { cfg: "big", tag: "n050", ty: "N::<293>" },
    Make { cfg: "big", tag: "n060", ty: "N::<294>" },
    Make { cfg: "big", tag: "n070", ty: "N::<295>" },
    Make { cfg: "big", tag: "n080", ty: "N::<296>" },
    Make { cfg: "big", tag: "n090", ty: "N::<297>" },
    Make { cfg: "big", tag: "n100", ty: "N::<298>" },
    Make { cfg: "big", tag: "n110", ty: "N::<299>" },
    Make { cfg: "big", tag: "n120", ty: "N::<300>" },
    Make { cfg: "big", tag: "n130", ty: "N::<301>" },
    Make { cfg: "big", tag: "n140", ty: "N::<302>" },
    Make { cfg: "big", tag: "n150", ty: "N::<303>" },
    Make { cfg: "big", tag: "n160", ty: "N::<304>" },
    Make { cfg: "big", tag: "n170", ty: "N::<305>" },
    Make { cfg: "big", tag: "n180", ty: "N::<306>" },
    Make { cfg: "big", tag: "n190", ty: "N::<307>" },
    Make { cfg: "big", tag: "n200", ty: "N::<308>" },
    Make { cfg: "big", tag: "n210", ty: "N::<309>" },
    Make { cfg: "big", tag: "n220", ty: "N::<310>" },
    Make { cfg: "big", tag: "n230", ty: "N::<311>" },
    Make { cfg: "big", tag: "n240", ty: "N::<312>" },
    Make { cfg: "big", tag: "n250", ty: "N::<313>" },
    Make { cfg: "big", tag: "n260", ty: "N::<314>" },
    Make { cfg: "big", tag: "n270", ty: "N::<315>" },
    Make { cfg: "slowe", tag: slow!("00"), ty: "N::<0>" },
    Make { cfg: "slowe", tag: slow!("01"), ty: "N::<1>" },
    Make { cfg: "slowe", tag: slow!("02"), ty: "N::<2>" },
    Make { cfg: "slowe", tag: slow!("03"), ty: "N::<3>" },
    Make { cfg: "slowe", tag: slow!("04"), ty: "N::<4>" },
    Make { cfg: "slowe", tag: slow!("05"), ty: "N::<5>" },
    Make { cfg: "slowe", tag: slow!("06"), ty: "N::<6>" },
    Make { cfg: "slowe", tag: slow!("07"), ty: "N::<7>" },
    Make { cfg: "slowe", tag: slow!("08"), ty: "N::<8>" },
    Make { cfg: "slowe", tag: slow!("09"), ty: "N::<9>" },
    Make { cfg: "slowe", tag: slow!("10"), ty: "N::<10>" },
    Make { cfg: "slowe", tag: slow!("11"), ty: "N::<11>" },
    Make { cfg: "slowe", tag: slow!("12"), ty: "N::<12>" },
    Make { cfg: "slowe", tag: slow!("13"), ty: "N::<13>" },
    Make { cfg: "slowe", tag: slow!("14"), ty: "N::<14>" },
    Make { cfg: "slowe", tag: slow!("15"), ty: "N::<15>" },
    Make { cfg: "slowe", tag: slow!("16"), ty: "N::<16>" },
    Make { cfg: "slowe", tag: slow!("17"), ty: "N::<17>" },
    Make { cfg: "slowe", tag: slow!("18"), ty: "N::<18>" },
    Make { cfg: "slowe", tag: slow!("19"), ty: "N::<19>" },
    Make { cfg: "slowe", tag: slow!("20"), ty: "N::<20>" },
    Make { cfg: "slowe", tag: slow!("21"), ty: "N::<21>" },
    Make { cfg: "slowe", tag: slow!("22"), ty: "N::<22>" },
    Make { cfg: "slowe", tag: slow!("23"), ty: "N::<23>" },
    Make { cfg: "slowe", tag: slow!("24"), ty: "N::<24>" },
    Make { cfg: "slowe", tag: slow!("25"), ty: "N::<25>" },
    Make { cfg: "slowe", tag: slow!("26"), ty: "N::<26>" },
    Make { cfg: "slowe", tag: slow!("27"), ty: "N::<27>" },
    Make { cfg: "slowe", tag: slow!("28"), ty: "N::<28>" },
    Make { cfg: "slowe", tag: slow!("29"), ty: "N::<29>" },
    Make { cfg: "slowe", tag: slow!("30"), ty: "N::<30>" },
    Make { cfg: "slowe", tag: slow!("31"), ty: "N::<31>" },
    Make { cfg: "slowe", tag: slow!("32"), ty: "N::<32>" },
    Make { cfg: "slowe", tag: slow!("33"), ty: "N::<33>" },
    Make { cfg: "slowe", tag: slow!("34"), ty: "N::<34>" },
    Make { cfg: "slowe", tag: slow!("35"), ty: "N::<35>" },
    Make { cfg: "slowe", tag: slow!("36"), ty: "N::<36>" },
    Make { cfg: "slowe", tag: slow!("37"), ty: "N::<37>" },
    Make { cfg: "slowe", tag: slow!("38"), ty: "N::<38>" },
    Make { cfg: "slowe", tag: slow!("39"), ty: "N::<39>" },
    Make { cfg: "slowe", tag: slow!("00"), ty: "N::<40>" },
    Make { cfg: "slowe", tag: slow!("10"), ty: "N::<41>" },
    Make { cfg: "slowe", tag: slow!("20"), ty: "N::<42>" },
    Make { cfg: "slowe", tag: slow!("30"), ty: "N::<43>" },
    Make { cfg: "slowi", tag: slow!("00"), ty: "N::<0>" },
    Make { cfg: "slowi", tag: slow!("01"), ty: "N::<1>" },
    Make { cfg: "slowi", tag: slow!("02"), ty: "N::<2>" },
    Make { cfg: "slowi", tag: slow!("03"), ty: "N::<3>" },
    Make { cfg: "slowi", tag: slow!("04"), ty: "N::<4>" },
    Make { cfg: "slowi", tag: slow!("05"), ty: "N::<5>" },
    Make { cfg: "slowi", tag: slow!("06"), ty: "N::<6>" },
    Make { cfg: "slowi", tag: slow!("07"), ty: "N::<7>" },
    Make { cfg: "slowi", tag: slow!("08"), ty: "N::<8>" },
    Make { cfg: "slowi", tag: slow!("09"), ty: "N::<9>" },
    Make { cfg: "slowi", tag: slow!("10"), ty: "N::<10>" },
    Make { cfg: "slowi", tag: slow!("11"), ty: "N::<11>" },
    Make { cfg: "slowi", tag: slow!("12"), ty: "N::<12>" },
    Make { cfg: "slowi", tag: slow!("13"), ty: "N::<13>" },
    Make { cfg: "slowi", tag: slow!("14"), ty: "N::<14>" },
    Make { cfg: "slowi", tag: slow!("15"), ty: "N::<15>" },
    Make { cfg: "slowi", tag: slow!("16"), ty: "N::<16>" },
    Make { cfg: "slowi", tag: slow!("17"), ty: "N::<17>" },
    Make { cfg: "slowi", tag: slow!("18"), ty: "N::<18>" },
    Make { cfg: "slowi", tag: slow!("19"), ty: "N::<19>" },
    Make { cfg: "slowi", tag: slow!("20"), ty: "N::<20>" },
    Make { cfg: "slowi", tag: slow!("21"), ty: "N::<21>" },
    Make { cfg: "slowi", tag: slow!("22"), ty: "N::<22>" },
    Make { cfg: "slowi", tag: slow!("23"), ty: "N::<23>" },
    Make { cfg: "slowi", tag: slow!("24"), ty: "N::<24>" },
    Make { cfg: "slowi", tag: slow!("25"), ty: "N::<25>" },
    Make { cfg: "slowi", tag: slow!("26"), ty: "N::<26>" },
    Make { cfg: "slowi", tag: slow!("27"), ty: "N::<27>" },
    Make { cfg: "slowi", tag: slow!("28"), ty: "N::<28>" },
    Make { cfg: "slowi", tag: slow!("29"), ty: "N::<29>" },
    Make { cfg: "slowi", tag: slow!("30"), ty: "N::<30>" },
    Make { cfg: "slowi", tag: slow!("31"), ty: "N::<31>" },
    Make { cfg: "slowi", tag: slow!("32"), ty: "N::<32>" },
    Make { cfg: "slowi", tag: slow!("33"), ty: "N::<33>" },
    Make { cfg: "slowi", tag: slow!("34"), ty: "N::<34>" },
    Make { cfg: "slowi", tag: slow!("35"), ty: "N::<35>" },
    Make { cfg: "slowi", tag: slow!("36"), ty: "N::<36>" },
    Make { cfg: "slowi", tag: slow!("37"), ty: "N::<37>" },
    Make { cfg: "slowi", tag: slow!("38"), ty: "N::<38>" },
    Make { cfg: "slowi", tag: slow!("39"), ty: "N::<39>" },
    Make { cfg: "slowi", tag: slow!("00"), ty: "N::<40>" },
    Make { cfg: "slowi", tag: slow!("10"), ty: "N::<41>" },
    Make { cfg: "slowi", tag: slow!("20"), ty: "N::<42>" },
    Make { cfg: "slowi", tag: slow!("30"), ty: "N::<43>" },
    Make { cfg: "slowa", tag: slow!("00"), ty: "N::<0>" },
    Make { cfg: "slowa", tag: slow!("01"), ty: "N::<1>" },
    Make { cfg: "slowa", tag: slow!("02"), ty: "N::<2>" },
    Make { cfg: "slowa", tag: slow!("03"), ty: "N::<3>" },
    Make { cfg: "slowa", tag: slow!("04"), ty: "N::<4>" },
    Make { cfg: "slowa", tag: slow!("05"), ty: "N::<5>" },
    Make { cfg: "slowa", tag: slow!("06"), ty: "N::<6>" },
    Make { cfg: "slowa", tag: slow!("07"), ty: "N::<7>" },
    Make { cfg: "slowa", tag: slow!("08"), ty: "N::<8>" },
    Make { cfg: "slowa", tag: slow!("09"), ty: "N::<9>" },
    Make { cfg: "slowa", tag: slow!("10"), ty: "N::<10>" },
    Make { cfg: "slowa", tag: slow!("11"), ty: "N::<11>" },
    Make { cfg: "slowa", tag: slow!("12"), ty: "N::<12>" },
    Make { cfg: "slowa", tag: slow!("13"), ty: "N::<13>" },
    Make { cfg: "slowa", tag: slow!("14"), ty: "N::<14>" },
    Make { cfg: "slowa", tag: slow!("15"), ty: "N::<15>" },
    Make { cfg: "slowa", tag: slow!("16"), ty: "N::<16>" },
    Make { cfg: "slowa", tag: slow!("17"), ty: "N::<17>" },
    Make { cfg: "slowa", tag: slow!("18"), ty: "N::<18>" },
    Make { cfg: "slowa", tag: slow!("19"), ty: "N::<19>" },
    Make { cfg: "slowa", tag: slow!("20"), ty: "N::<20>" },
    Make { cfg: "slowa", tag: slow!("21"), ty: "N::<21>" },
    Make { cfg: "slowa", tag: slow!("22"), ty: "N::<22>" },
    Make { cfg: "slowa", tag: slow!("23"), ty: "N::<23>" },
    Make { cfg: "slowa", tag: slow!("24"), ty: "N::<24>" },
    Make { cfg: "slowa", tag: slow!("25"), ty: "N::<25>" },
    Make { cfg: "slowa", tag: slow!("26"), ty: "N::<26>" },
    Make { cfg: "slowa", tag: slow!("27"), ty: "N::<27>" },
    Make { cfg: "slowa", tag: slow!("28"), ty: "N::<28>" },
    Make { cfg: "slowa", tag: slow!("29"), ty: "N::<29>" },
    Make { cfg: "slowa", tag: slow!("30"), ty: "N::<30>" },
    Make { cfg: "slowa", tag: slow!("31"), ty: "N::<31>" },
    Make { cfg: "slowa", tag: slow!("32"), ty: "N::<32>" },
    Make { cfg: "slowa", tag: slow!("33"), ty: "N::<33>" },
    Make { cfg: "slowa", tag: slow!("34"), ty: "N::<34>" },
    Make { cfg: "slowa", tag: slow!("35"), ty: "N::<35>" },
    Make { cfg: "slowa", tag: slow!("36"), ty: "N::<36>" },
    Make { cfg: "slowa", tag: slow!("37"), ty: "N::<37>" },
    Make { cfg: "slowa", tag: slow!("38"), ty: "N::<38>" },
    Make { cfg: "slowa", tag: slow!("39"), ty: "N::<39>" },
    Make { cfg: "slowa", tag: slow!("00"), ty: "N::<40>" },
    Make { cfg: "slowa", tag: slow!("10"), ty: "N::<41>" },
    Make { cfg: "slowa", tag: slow!("20"), ty: "N::<42>" },
    Make { cfg: "slowa", tag: slow!("30"), ty: "N::<43>" },
    Make { cfg: "mextn", tag: "A", ty: "A" },
    Make { cfg: "mextn", tag: "B", ty: "B" },
    Make { cfg: "mextn", tag: "C", ty: "C" },
    Make { cfg: "mextn", tag: "dup", ty: "Dup1" },
    Make { cfg: "mextn", tag: "dup", ty: "Dup2" },
    Make { cfg: "mextn", tag: "K", ty: "Konst" },
    Make { cfg: "mextn", tag: "sizeless", ty: "Sizeless" },
    Make { cfg: "mextn", tag: "wide", ty: "Wide" },
    Make { cfg: "mextn", tag: "only-mextn", ty: "Only" },
    Make { cfg: "mexts", tag: "A", ty: "A" },
    Make { cfg: "mexts", tag: "B", ty: "B" },
    Make { cfg: "mexts", tag: "C", ty: "C" },
    Make { cfg: "mexts", tag: "dup", ty: "Dup1" },
    Make { cfg: "mexts", tag: "dup", ty: "Dup2" },
    Make { cfg: "mexts", tag: "K", ty: "Konst" },
    Make { cfg: "mexts", tag: "sizeless", ty: "Sizeless" },
    Make { cfg: "mexts", tag: "wide", ty: "Wide" },
    Make { cfg: "mexts", tag: "only-mexts", ty: "Only" },
    Make { cfg: "mexty", tag: "A", ty: "A" },
    Make { cfg: "mexty", tag: "B", ty: "B" },
    Make { cfg: "mexty", tag: "C", ty: "C" },
    Make { cfg: "mexty", tag: "dup", ty: "Dup1" },
    Make { cfg: "mexty", tag: "dup", ty: "Dup2" },
    Make { cfg: "mexty", tag: "K", ty: "Konst" },
    Make { cfg: "mexty", tag: "sizeless", ty: "Sizeless" },
    Make { cfg: "mexty", tag: "wide", ty: "Wide" },
    Make { cfg: "mexty", tag: "only-mexty", ty: "Only" },
    Make { cfg: "mextb", tag: "A", ty: "A" },
    Make { cfg: "mextb", tag: "B", ty: "B" },
    Make { cfg: "mextb", tag: "C", ty: "C" },
    Make { cfg: "mextb", tag: "dup", ty: "Dup1" },
    Make { cfg: "mextb", tag: "dup", ty: "Dup2" },
    Make { cfg: "mextb", tag: "K", ty: "Konst" },
    Make { cfg: "mextb", tag: "sizeless", ty: "Sizeless" },
    Make { cfg: "mextb", tag: "wide", ty: "Wide" },
    Make { cfg: "mextb", tag: "only-mextb", ty: "Only" },
    Make { cfg: "mintn", tag: "A", ty: "A" },
    Make { cfg: "mintn", tag: "B", ty: "B" },
    Make { cfg: "mintn", tag: "C", ty: "C" },
    Make { cfg: "mintn", tag: "dup", ty: "Dup1" },
    Make { cfg: "mintn", tag: "dup", ty: "Dup2" },
    Make { cfg: "mintn", tag: "K", ty: "Konst" },
    Make { cfg: "mintn", tag: "sizeless", ty: "Sizeless" },
    Make { cfg: "mintn", tag: "wide", ty: "Wide" },
    Make { cfg: "mintn", tag: "only-mintn", ty: "Only" },
    Make { cfg: "mints", tag: "A", ty: "A" },
    Make { cfg: "mints", tag: "B", ty: "B" },
    Make { cfg: "mints", tag: "C", ty: "C" },
    Make { cfg: "mints", tag: "dup", ty: "Dup1" },
    Make { cfg: "mints", tag: "dup", ty: "Dup2" },
    Make { cfg: "mints", tag: "K", ty: "Konst" },
    Make { cfg: "mints", tag: "sizeless", ty: "Sizeless" },
    Make { cfg: "mints", tag: "wide", ty: "Wide" },
    Make { cfg: "mints", tag: "only-mints", ty: "Only" },
    Make { cfg: "minty", tag: "A", ty: "A" },
    Make { cfg: "minty", tag: "B", ty: "B" },
    Make { cfg: "minty", tag: "C", ty: "C" },
    Make { cfg: "minty", tag: "dup", ty: "Dup1" },
    Make { cfg: "minty", tag: "dup", ty: "Dup2" },
    Make { cfg: "minty", tag: "K", ty: "Konst" },
    Make { cfg: "minty", tag: "sizeless", ty: "Sizeless" },
    Make { cfg: "minty", tag: "wide", ty: "Wide" },
    Make { cfg: "minty", tag: "only-minty", ty: "Only" },
    Make { cfg: "mintb", tag: "A", ty: "A" },
    Make { cfg: "mintb", tag: "B", ty: "B" },
    Make { cfg: "mintb", tag: "C", ty: "C" },
    Make { cfg: "mintb", tag: "dup", ty: "Dup1" },
    Make { cfg: "mintb", tag: "dup", ty: "Dup2" },
    Make { cfg: "mintb", tag: "K", ty: "Konst" },
    Make { cfg: "mintb", tag: "sizeless", ty: "Sizeless" },
    Make { cfg: "mintb", tag: "wide", ty: "Wide" },
    Make { cfg: "mintb", tag: "only-mintb", ty: "Only" },
    Make { cfg: "madjn", tag: "A", ty: "A" },
    Make { cfg: "madjn", tag: "B", ty: "B" },
    Make { cfg: "madjn", tag: "C", ty: "C" },
    Make { cfg: "madjn", tag: "dup", ty: "Dup1" },
    Make { cfg: "madjn", tag: "dup", ty: "Dup2" },
    Make { cfg: "madjn", tag: "K", ty: "Konst" },
    Make { cfg: "madjn", tag: "sizeless", ty: "Sizeless" },
    Make { cfg: "madjn", tag: "wide", ty: "Wide" },
    Make { cfg: "madjn", tag: "only-madjn", ty: "Only" },
    Make { cfg: "madjs", tag: "A", ty: "A" },
    Make { cfg: "madjs", tag: "B", ty: "B" },
    Make { cfg: "madjs", tag: "C", ty: "C" },
    Make { cfg: "madjs", tag: "dup", ty: "Dup1" },
    Make { cfg: "madjs", tag: "dup", ty: "Dup2" },
    Make { cfg: "madjs", tag: "K", ty: "Konst" },
    Make { cfg: "madjs", tag: "sizeless", ty: "Sizeless" },
    Make { cfg: "madjs", tag: "wide", ty: "Wide" },
    Make { cfg: "madjs", tag: "only-madjs", ty: "Only" },
    Make { cfg: "madjy", tag: "A", ty: "A" },
    Make { cfg: "madjy", tag: "B", ty: "B" },
    Make { cfg: "madjy", tag: "C", ty: "C" },
    Make { cfg: "madjy", tag: "dup", ty: "Dup1" },
    Make { cfg: "madjy", tag: "dup", ty: "Dup2" },
    Make { cfg: "madjy", tag: "K", ty: "Konst" },
    Make { cfg: "madjy", tag: "sizeless", ty: "Sizeless" },
    Make { cfg: "madjy", tag: "wide", ty: "Wide" },
    Make { cfg: "madjy", tag: "only-madjy", ty: "Only" },
    Make { cfg: "madjb", tag: "A", ty: "A" },
    Make { cfg: "madjb", tag: "B", ty: "B" },
    Make { cfg: "madjb", tag: "C", ty: "C" },
    Make { cfg: "madjb", tag: "dup", ty: "Dup1" },
    Make { cfg: "madjb", tag: "dup", ty: "Dup2" },
    Make { cfg: "madjb", tag: "K", ty: "Konst" },
    Make { cfg: "madjb", tag: "sizeless", ty: "Sizeless" },
    Make { cfg: "madjb", tag: "wide", ty: "Wide" },
    Make { cfg: "madjb", tag: "only-madjb", ty: "Only" },
];

/// Configuration, representation, tag key, content key.
pub const REPS: &[(&str, &str, &str, &str)] = &[
    ("ext0", "ext", "", ""),
    ("int0", "int", "type", ""),
    ("int1", "int", "t", ""),
    ("int2", "int", "value", ""),
    ("int3", "int", "", ""),
    ("int4", "int", "täg \"k\"", ""),
    ("int5", "int", "t", ""),
    ("int6", "int", "t", ""),
    ("int7", "int", "a", ""),
    ("adj0", "adj", "t", "c"),
    ("adj1", "adj", "t", "c"),
    ("adj2", "adj", "t", "c"),
    ("adj3", "adj", "t", "c"),
    ("adj4", "adj", "t", "c"),
    ("adj5", "adj", "t", "c"),
    ("adj6", "adj", "c", "t"),
    ("adj7", "adj", "value", "type"),
    ("adj8", "adj", "", "täg \"k\""),
    ("adj9", "adj", "t", "c"),
    ("sero", "int", "t", ""),
    ("serx", "ext", "", ""),
    ("sera", "adj", "t", "c"),
    ("deo", "int", "t", ""),
    ("dex", "ext", "", ""),
    ("dea", "adj", "t", "c"),
    ("big", "int", "t", ""),
    ("slowe", "ext", "", ""),
    ("slowi", "int", "t", ""),
    ("slowa", "adj", "t", "c"),
    ("mextn", "ext", "", ""),
    ("mexts", "ext", "", ""),
    ("mexty", "ext", "", ""),
    ("mextb", "ext", "", ""),
    ("mintn", "int", "t", ""),
    ("mints", "int", "t", ""),
    ("minty", "int", "t", ""),
    ("mintb", "int", "t", ""),
    ("madjn", "adj", "t", "c"),
    ("madjs", "adj", "t", "c"),
    ("madjy", "adj", "t", "c"),
    ("madjb", "adj", "t", "c"),
];

/// The tag under which a type is registered in a trait.
pub fn tag_of(cfg: &str, ty: &str) -> &'static str {
    ALL.iter().find(|m| m.cfg == cfg && m.ty == ty).map_or("", |m| m.tag)
}

/// Trait objects made by other crates.
pub type Maker = fn(&str, &str, Node) -> Option<Box<dyn std::any::Any>>;
pub static EXTERNAL: std::sync::OnceLock<Maker> = std::sync::OnceLock::new();

fn no_type(cfg: &str, ty: &str) -> ! {
    panic!("no implementation {} in {}", ty, cfg)
}

pub fn make_ext0(ty: &str, node: Node) -> Box<dyn TExt0> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Value" => Box::new(Value(node)),
        "Empty" => Box::new(Empty(node)),
        "Uni" => Box::new(Uni(node)),
        "Konst" => Box::new(Konst(node)),
        "Cat" => Box::new(Cat(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Trip1" => Box::new(Trip1(node)),
        "Trip2" => Box::new(Trip2(node)),
        "Trip3" => Box::new(Trip3(node)),
        "Quad1" => Box::new(Quad1(node)),
        "Quad2" => Box::new(Quad2(node)),
        "Quad3" => Box::new(Quad3(node)),
        "Quad4" => Box::new(Quad4(node)),
        "DupX1" => Box::new(DupX1(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => {
            let f = EXTERNAL.get().expect("external crate");
            match f("ext0", ty, node) {
                Some(x) => *x.downcast::<Box<dyn TExt0>>().unwrap(),
                None => no_type("ext0", ty),
            }
        }
    }
}
pub fn make_int0(ty: &str, node: Node) -> Box<dyn TInt0> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Value" => Box::new(Value(node)),
        "Empty" => Box::new(Empty(node)),
        "Uni" => Box::new(Uni(node)),
        "Konst" => Box::new(Konst(node)),
        "Cat" => Box::new(Cat(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Trip1" => Box::new(Trip1(node)),
        "Trip2" => Box::new(Trip2(node)),
        "Trip3" => Box::new(Trip3(node)),
        "Quad1" => Box::new(Quad1(node)),
        "Quad2" => Box::new(Quad2(node)),
        "Quad3" => Box::new(Quad3(node)),
        "Quad4" => Box::new(Quad4(node)),
        "DupX1" => Box::new(DupX1(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => {
            let f = EXTERNAL.get().expect("external crate");
            match f("int0", ty, node) {
                Some(x) => *x.downcast::<Box<dyn TInt0>>().unwrap(),
                None => no_type("int0", ty),
            }
        }
    }
}
pub fn make_int1(ty: &str, node: Node) -> Box<dyn TInt1> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Value" => Box::new(Value(node)),
        "Empty" => Box::new(Empty(node)),
        "Uni" => Box::new(Uni(node)),
        "Konst" => Box::new(Konst(node)),
        "Cat" => Box::new(Cat(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Trip1" => Box::new(Trip1(node)),
        "Trip2" => Box::new(Trip2(node)),
        "Trip3" => Box::new(Trip3(node)),
        "Quad1" => Box::new(Quad1(node)),
        "Quad2" => Box::new(Quad2(node)),
        "Quad3" => Box::new(Quad3(node)),
        "Quad4" => Box::new(Quad4(node)),
        "DupX1" => Box::new(DupX1(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => {
            let f = EXTERNAL.get().expect("external crate");
            match f("int1", ty, node) {
                Some(x) => *x.downcast::<Box<dyn TInt1>>().unwrap(),
                None => no_type("int1", ty),
            }
        }
    }
}
pub fn make_int2(ty: &str, node: Node) -> Box<dyn TInt2> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Value" => Box::new(Value(node)),
        "Empty" => Box::new(Empty(node)),
        "Uni" => Box::new(Uni(node)),
        "Konst" => Box::new(Konst(node)),
        "Cat" => Box::new(Cat(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Trip1" => Box::new(Trip1(node)),
        "Trip2" => Box::new(Trip2(node)),
        "Trip3" => Box::new(Trip3(node)),
        "Quad1" => Box::new(Quad1(node)),
        "Quad2" => Box::new(Quad2(node)),
        "Quad3" => Box::new(Quad3(node)),
        "Quad4" => Box::new(Quad4(node)),
        "DupX1" => Box::new(DupX1(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => {
            let f = EXTERNAL.get().expect("external crate");
            match f("int2", ty, node) {
                Some(x) => *x.downcast::<Box<dyn TInt2>>().unwrap(),
                None => no_type("int2", ty),
            }
        }
    }
}
pub fn make_int3(ty: &str, node: Node) -> Box<dyn TInt3> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Value" => Box::new(Value(node)),
        "Empty" => Box::new(Empty(node)),
        "Uni" => Box::new(Uni(node)),
        "Konst" => Box::new(Konst(node)),
        "Cat" => Box::new(Cat(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Trip1" => Box::new(Trip1(node)),
        "Trip2" => Box::new(Trip2(node)),
        "Trip3" => Box::new(Trip3(node)),
        "Quad1" => Box::new(Quad1(node)),
        "Quad2" => Box::new(Quad2(node)),
        "Quad3" => Box::new(Quad3(node)),
        "Quad4" => Box::new(Quad4(node)),
        "DupX1" => Box::new(DupX1(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => {
            let f = EXTERNAL.get().expect("external crate");
            match f("int3", ty, node) {
                Some(x) => *x.downcast::<Box<dyn TInt3>>().unwrap(),
                None => no_type("int3", ty),
            }
        }
    }
}
pub fn make_int4(ty: &str, node: Node) -> Box<dyn TInt4> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Value" => Box::new(Value(node)),
        "Empty" => Box::new(Empty(node)),
        "Uni" => Box::new(Uni(node)),
        "Konst" => Box::new(Konst(node)),
        "Cat" => Box::new(Cat(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Trip1" => Box::new(Trip1(node)),
        "Trip2" => Box::new(Trip2(node)),
        "Trip3" => Box::new(Trip3(node)),
        "Quad1" => Box::new(Quad1(node)),
        "Quad2" => Box::new(Quad2(node)),
        "Quad3" => Box::new(Quad3(node)),
        "Quad4" => Box::new(Quad4(node)),
        "DupX1" => Box::new(DupX1(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => {
            let f = EXTERNAL.get().expect("external crate");
            match f("int4", ty, node) {
                Some(x) => *x.downcast::<Box<dyn TInt4>>().unwrap(),
                None => no_type("int4", ty),
            }
        }
    }
}
pub fn make_int5(ty: &str, node: Node) -> Box<dyn TInt5> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Value" => Box::new(Value(node)),
        "Empty" => Box::new(Empty(node)),
        "Uni" => Box::new(Uni(node)),
        "Konst" => Box::new(Konst(node)),
        "Cat" => Box::new(Cat(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Trip1" => Box::new(Trip1(node)),
        "Trip2" => Box::new(Trip2(node)),
        "Trip3" => Box::new(Trip3(node)),
        "Quad1" => Box::new(Quad1(node)),
        "Quad2" => Box::new(Quad2(node)),
        "Quad3" => Box::new(Quad3(node)),
        "Quad4" => Box::new(Quad4(node)),
        "DupX1" => Box::new(DupX1(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => {
            let f = EXTERNAL.get().expect("external crate");
            match f("int5", ty, node) {
                Some(x) => *x.downcast::<Box<dyn TInt5>>().unwrap(),
                None => no_type("int5", ty),
            }
        }
    }
}
pub fn make_int6(ty: &str, node: Node) -> Box<dyn TInt6> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Value" => Box::new(Value(node)),
        "Empty" => Box::new(Empty(node)),
        "Uni" => Box::new(Uni(node)),
        "Konst" => Box::new(Konst(node)),
        "Cat" => Box::new(Cat(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Trip1" => Box::new(Trip1(node)),
        "Trip2" => Box::new(Trip2(node)),
        "Trip3" => Box::new(Trip3(node)),
        "Quad1" => Box::new(Quad1(node)),
        "Quad2" => Box::new(Quad2(node)),
        "Quad3" => Box::new(Quad3(node)),
        "Quad4" => Box::new(Quad4(node)),
        "DupX1" => Box::new(DupX1(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => {
            let f = EXTERNAL.get().expect("external crate");
            match f("int6", ty, node) {
                Some(x) => *x.downcast::<Box<dyn TInt6>>().unwrap(),
                None => no_type("int6", ty),
            }
        }
    }
}
pub fn make_int7(ty: &str, node: Node) -> Box<dyn TInt7> {
    match ty {
        "C" => Box::new(C(node)),
        "Value" => Box::new(Value(node)),
        "Empty" => Box::new(Empty(node)),
        "Uni" => Box::new(Uni(node)),
        "Konst" => Box::new(Konst(node)),
        "Cat" => Box::new(Cat(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Trip1" => Box::new(Trip1(node)),
        "Trip2" => Box::new(Trip2(node)),
        "Trip3" => Box::new(Trip3(node)),
        "Quad1" => Box::new(Quad1(node)),
        "Quad2" => Box::new(Quad2(node)),
        "Quad3" => Box::new(Quad3(node)),
        "Quad4" => Box::new(Quad4(node)),
        "DupX1" => Box::new(DupX1(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        _ => {
            let f = EXTERNAL.get().expect("external crate");
            match f("int7", ty, node) {
                Some(x) => *x.downcast::<Box<dyn TInt7>>().unwrap(),
                None => no_type("int7", ty),
            }
        }
    }
}
pub fn make_adj0(ty: &str, node: Node) -> Box<dyn TAdj0> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Value" => Box::new(Value(node)),
        "Empty" => Box::new(Empty(node)),
        "Uni" => Box::new(Uni(node)),
        "Konst" => Box::new(Konst(node)),
        "Cat" => Box::new(Cat(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Trip1" => Box::new(Trip1(node)),
        "Trip2" => Box::new(Trip2(node)),
        "Trip3" => Box::new(Trip3(node)),
        "Quad1" => Box::new(Quad1(node)),
        "Quad2" => Box::new(Quad2(node)),
        "Quad3" => Box::new(Quad3(node)),
        "Quad4" => Box::new(Quad4(node)),
        "DupX1" => Box::new(DupX1(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => {
            let f = EXTERNAL.get().expect("external crate");
            match f("adj0", ty, node) {
                Some(x) => *x.downcast::<Box<dyn TAdj0>>().unwrap(),
                None => no_type("adj0", ty),
            }
        }
    }
}
pub fn make_adj1(ty: &str, node: Node) -> Box<dyn TAdj1> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Value" => Box::new(Value(node)),
        "Empty" => Box::new(Empty(node)),
        "Uni" => Box::new(Uni(node)),
        "Konst" => Box::new(Konst(node)),
        "Cat" => Box::new(Cat(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Trip1" => Box::new(Trip1(node)),
        "Trip2" => Box::new(Trip2(node)),
        "Trip3" => Box::new(Trip3(node)),
        "Quad1" => Box::new(Quad1(node)),
        "Quad2" => Box::new(Quad2(node)),
        "Quad3" => Box::new(Quad3(node)),
        "Quad4" => Box::new(Quad4(node)),
        "DupX1" => Box::new(DupX1(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => {
            let f = EXTERNAL.get().expect("external crate");
            match f("adj1", ty, node) {
                Some(x) => *x.downcast::<Box<dyn TAdj1>>().unwrap(),
                None => no_type("adj1", ty),
            }
        }
    }
}
pub fn make_adj2(ty: &str, node: Node) -> Box<dyn TAdj2> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Value" => Box::new(Value(node)),
        "Empty" => Box::new(Empty(node)),
        "Uni" => Box::new(Uni(node)),
        "Konst" => Box::new(Konst(node)),
        "Cat" => Box::new(Cat(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Trip1" => Box::new(Trip1(node)),
        "Trip2" => Box::new(Trip2(node)),
        "Trip3" => Box::new(Trip3(node)),
        "Quad1" => Box::new(Quad1(node)),
        "Quad2" => Box::new(Quad2(node)),
        "Quad3" => Box::new(Quad3(node)),
        "Quad4" => Box::new(Quad4(node)),
        "DupX1" => Box::new(DupX1(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => {
            let f = EXTERNAL.get().expect("external crate");
            match f("adj2", ty, node) {
                Some(x) => *x.downcast::<Box<dyn TAdj2>>().unwrap(),
                None => no_type("adj2", ty),
            }
        }
    }
}
pub fn make_adj3(ty: &str, node: Node) -> Box<dyn TAdj3> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Value" => Box::new(Value(node)),
        "Empty" => Box::new(Empty(node)),
        "Uni" => Box::new(Uni(node)),
        "Konst" => Box::new(Konst(node)),
        "Cat" => Box::new(Cat(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Trip1" => Box::new(Trip1(node)),
        "Trip2" => Box::new(Trip2(node)),
        "Trip3" => Box::new(Trip3(node)),
        "Quad1" => Box::new(Quad1(node)),
        "Quad2" => Box::new(Quad2(node)),
        "Quad3" => Box::new(Quad3(node)),
        "Quad4" => Box::new(Quad4(node)),
        "DupX1" => Box::new(DupX1(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => {
            let f = EXTERNAL.get().expect("external crate");
            match f("adj3", ty, node) {
                Some(x) => *x.downcast::<Box<dyn TAdj3>>().unwrap(),
                None => no_type("adj3", ty),
            }
        }
    }
}
pub fn make_adj4(ty: &str, node: Node) -> Box<dyn TAdj4> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Value" => Box::new(Value(node)),
        "Empty" => Box::new(Empty(node)),
        "Uni" => Box::new(Uni(node)),
        "Konst" => Box::new(Konst(node)),
        "Cat" => Box::new(Cat(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Trip1" => Box::new(Trip1(node)),
        "Trip2" => Box::new(Trip2(node)),
        "Trip3" => Box::new(Trip3(node)),
        "Quad1" => Box::new(Quad1(node)),
        "Quad2" => Box::new(Quad2(node)),
        "Quad3" => Box::new(Quad3(node)),
        "Quad4" => Box::new(Quad4(node)),
        "DupX1" => Box::new(DupX1(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => {
            let f = EXTERNAL.get().expect("external crate");
            match f("adj4", ty, node) {
                Some(x) => *x.downcast::<Box<dyn TAdj4>>().unwrap(),
                None => no_type("adj4", ty),
            }
        }
    }
}
pub fn make_adj5(ty: &str, node: Node) -> Box<dyn TAdj5> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Value" => Box::new(Value(node)),
        "Empty" => Box::new(Empty(node)),
        "Uni" => Box::new(Uni(node)),
        "Konst" => Box::new(Konst(node)),
        "Cat" => Box::new(Cat(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Trip1" => Box::new(Trip1(node)),
        "Trip2" => Box::new(Trip2(node)),
        "Trip3" => Box::new(Trip3(node)),
        "Quad1" => Box::new(Quad1(node)),
        "Quad2" => Box::new(Quad2(node)),
        "Quad3" => Box::new(Quad3(node)),
        "Quad4" => Box::new(Quad4(node)),
        "DupX1" => Box::new(DupX1(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => {
            let f = EXTERNAL.get().expect("external crate");
            match f("adj5", ty, node) {
                Some(x) => *x.downcast::<Box<dyn TAdj5>>().unwrap(),
                None => no_type("adj5", ty),
            }
        }
    }
}
pub fn make_adj6(ty: &str, node: Node) -> Box<dyn TAdj6> {
    match ty {
        "C" => Box::new(C(node)),
        "Value" => Box::new(Value(node)),
        "Empty" => Box::new(Empty(node)),
        "Uni" => Box::new(Uni(node)),
        "Konst" => Box::new(Konst(node)),
        "Cat" => Box::new(Cat(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Trip1" => Box::new(Trip1(node)),
        "Trip2" => Box::new(Trip2(node)),
        "Trip3" => Box::new(Trip3(node)),
        "Quad1" => Box::new(Quad1(node)),
        "Quad2" => Box::new(Quad2(node)),
        "Quad3" => Box::new(Quad3(node)),
        "Quad4" => Box::new(Quad4(node)),
        "DupX1" => Box::new(DupX1(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        _ => {
            let f = EXTERNAL.get().expect("external crate");
            match f("adj6", ty, node) {
                Some(x) => *x.downcast::<Box<dyn TAdj6>>().unwrap(),
                None => no_type("adj6", ty),
            }
        }
    }
}
pub fn make_adj7(ty: &str, node: Node) -> Box<dyn TAdj7> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Value" => Box::new(Value(node)),
        "Empty" => Box::new(Empty(node)),
        "Uni" => Box::new(Uni(node)),
        "Konst" => Box::new(Konst(node)),
        "Cat" => Box::new(Cat(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Trip1" => Box::new(Trip1(node)),
        "Trip2" => Box::new(Trip2(node)),
        "Trip3" => Box::new(Trip3(node)),
        "Quad1" => Box::new(Quad1(node)),
        "Quad2" => Box::new(Quad2(node)),
        "Quad3" => Box::new(Quad3(node)),
        "Quad4" => Box::new(Quad4(node)),
        "DupX1" => Box::new(DupX1(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => {
            let f = EXTERNAL.get().expect("external crate");
            match f("adj7", ty, node) {
                Some(x) => *x.downcast::<Box<dyn TAdj7>>().unwrap(),
                None => no_type("adj7", ty),
            }
        }
    }
}
pub fn make_adj8(ty: &str, node: Node) -> Box<dyn TAdj8> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Value" => Box::new(Value(node)),
        "Empty" => Box::new(Empty(node)),
        "Uni" => Box::new(Uni(node)),
        "Konst" => Box::new(Konst(node)),
        "Cat" => Box::new(Cat(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Trip1" => Box::new(Trip1(node)),
        "Trip2" => Box::new(Trip2(node)),
        "Trip3" => Box::new(Trip3(node)),
        "Quad1" => Box::new(Quad1(node)),
        "Quad2" => Box::new(Quad2(node)),
        "Quad3" => Box::new(Quad3(node)),
        "Quad4" => Box::new(Quad4(node)),
        "DupX1" => Box::new(DupX1(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => {
            let f = EXTERNAL.get().expect("external crate");
            match f("adj8", ty, node) {
                Some(x) => *x.downcast::<Box<dyn TAdj8>>().unwrap(),
                None => no_type("adj8", ty),
            }
        }
    }
}
pub fn make_adj9(ty: &str, node: Node) -> Box<dyn TAdj9> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Value" => Box::new(Value(node)),
        "Empty" => Box::new(Empty(node)),
        "Uni" => Box::new(Uni(node)),
        "Konst" => Box::new(Konst(node)),
        "Cat" => Box::new(Cat(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Trip1" => Box::new(Trip1(node)),
        "Trip2" => Box::new(Trip2(node)),
        "Trip3" => Box::new(Trip3(node)),
        "Quad1" => Box::new(Quad1(node)),
        "Quad2" => Box::new(Quad2(node)),
        "Quad3" => Box::new(Quad3(node)),
        "Quad4" => Box::new(Quad4(node)),
        "DupX1" => Box::new(DupX1(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => {
            let f = EXTERNAL.get().expect("external crate");
            match f("adj9", ty, node) {
                Some(x) => *x.downcast::<Box<dyn TAdj9>>().unwrap(),
                None => no_type("adj9", ty),
            }
        }
    }
}
pub fn make_sero(ty: &str, node: Node) -> Box<dyn TSero> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Konst" => Box::new(Konst(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => no_type("sero", ty),
    }
}
pub fn make_serx(ty: &str, node: Node) -> Box<dyn TSerx> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Konst" => Box::new(Konst(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => no_type("serx", ty),
    }
}
pub fn make_sera(ty: &str, node: Node) -> Box<dyn TSera> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Konst" => Box::new(Konst(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => no_type("sera", ty),
    }
}
pub fn make_deo(ty: &str, node: Node) -> Box<dyn TDeo> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Konst" => Box::new(Konst(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => no_type("deo", ty),
    }
}
pub fn make_dex(ty: &str, node: Node) -> Box<dyn TDex> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Konst" => Box::new(Konst(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => no_type("dex", ty),
    }
}
pub fn make_dea(ty: &str, node: Node) -> Box<dyn TDea> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Konst" => Box::new(Konst(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => no_type("dea", ty),
    }
}
pub fn make_big(ty: &str, node: Node) -> Box<dyn TBig> {
    match ty {
        "N::<0>" => Box::new(N::<0>(node)),
        "N::<1>" => Box::new(N::<1>(node)),
        "N::<2>" => Box::new(N::<2>(node)),
        "N::<3>" => Box::new(N::<3>(node)),
        "N::<4>" => Box::new(N::<4>(node)),
        "N::<5>" => Box::new(N::<5>(node)),
        "N::<6>" => Box::new(N::<6>(node)),
        "N::<7>" => Box::new(N::<7>(node)),
        "N::<8>" => Box::new(N::<8>(node)),
        "N::<9>" => Box::new(N::<9>(node)),
        "N::<10>" => Box::new(N::<10>(node)),
        "N::<11>" => Box::new(N::<11>(node)),
        "N::<12>" => Box::new(N::<12>(node)),
        "N::<13>" => Box::new(N::<13>(node)),
        "N::<14>" => Box::new(N::<14>(node)),
        "N::<15>" => Box::new(N::<15>(node)),
        "N::<16>" => Box::new(N::<16>(node)),
        "N::<17>" => Box::new(N::<17>(node)),
        "N::<18>" => Box::new(N::<18>(node)),
        "N::<19>" => Box::new(N::<19>(node)),
        "N::<20>" => Box::new(N::<20>(node)),
        "N::<21>" => Box::new(N::<21>(node)),
        "N::<22>" => Box::new(N::<22>(node)),
        "N::<23>" => Box::new(N::<23>(node)),
        "N::<24>" => Box::new(N::<24>(node)),
        "N::<25>" => Box::new(N::<25>(node)),
        "N::<26>" => Box::new(N::<26>(node)),
        "N::<27>" => Box::new(N::<27>(node)),
        "N::<28>" => Box::new(N::<28>(node)),
        "N::<29>" => Box::new(N::<29>(node)),
        "N::<30>" => Box::new(N::<30>(node)),
        "N::<31>" => Box::new(N::<31>(node)),
        "N::<32>" => Box::new(N::<32>(node)),
        "N::<33>" => Box::new(N::<33>(node)),
        "N::<34>" => Box::new(N::<34>(node)),
        "N::<35>" => Box::new(N::<35>(node)),
        "N::<36>" => Box::new(N::<36>(node)),
        "N::<37>" => Box::new(N::<37>(node)),
        "N::<38>" => Box::new(N::<38>(node)),
        "N::<39>" => Box::new(N::<39>(node)),
        "N::<40>" => Box::new(N::<40>(node)),
        "N::<41>" => Box::new(N::<41>(node)),
        "N::<42>" => Box::new(N::<42>(node)),
        "N::<43>" => Box::new(N::<43>(node)),
        "N::<44>" => Box::new(N::<44>(node)),
        "N::<45>" => Box::new(N::<45>(node)),
        "N::<46>" => Box::new(N::<46>(node)),
        "N::<47>" => Box::new(N::<47>(node)),
        "N::<48>" => Box::new(N::<48>(node)),
        "N::<49>" => Box::new(N::<49>(node)),
        "N::<50>" => Box::new(N::<50>(node)),
        "N::<51>" => Box::new(N::<51>(node)),
        "N::<52>" => Box::new(N::<52>(node)),
        "N::<53>" => Box::new(N::<53>(node)),
        "N::<54>" => Box::new(N::<54>(node)),
        "N::<55>" => Box::new(N::<55>(node)),
        "N::<56>" => Box::new(N::<56>(node)),
        "N::<57>" => Box::new(N::<57>(node)),
        "N::<58>" => Box::new(N::<58>(node)),
        "N::<59>" => Box::new(N::<59>(node)),
        "N::<60>" => Box::new(N::<60>(node)),
        "N::<61>" => Box::new(N::<61>(node)),
        "N::<62>" => Box::new(N::<62>(node)),
        "N::<63>" => Box::new(N::<63>(node)),
        "N::<64>" => Box::new(N::<64>(node)),
        "N::<65>" => Box::new(N::<65>(node)),
        "N::<66>" => Box::new(N::<66>(node)),
        "N::<67>" => Box::new(N::<67>(node)),
        "N::<68>" => Box::new(N::<68>(node)),
        "N::<69>" => Box::new(N::<69>(node)),
        "N::<70>" => Box::new(N::<70>(node)),
        "N::<71>" => Box::new(N::<71>(node)),
        "N::<72>" => Box::new(N::<72>(node)),
        "N::<73>" => Box::new(N::<73>(node)),
        "N::<74>" => Box::new(N::<74>(node)),
        "N::<75>" => Box::new(N::<75>(node)),
        "N::<76>" => Box::new(N::<76>(node)),
        "N::<77>" => Box::new(N::<77>(node)),
        "N::<78>" => Box::new(N::<78>(node)),
        "N::<79>" => Box::new(N::<79>(node)),
        "N::<80>" => Box::new(N::<80>(node)),
        "N::<81>" => Box::new(N::<81>(node)),
        "N::<82>" => Box::new(N::<82>(node)),
        "N::<83>" => Box::new(N::<83>(node)),
        "N::<84>" => Box::new(N::<84>(node)),
        "N::<85>" => Box::new(N::<85>(node)),
        "N::<86>" => Box::new(N::<86>(node)),
        "N::<87>" => Box::new(N::<87>(node)),
        "N::<88>" => Box::new(N::<88>(node)),
        "N::<89>" => Box::new(N::<89>(node)),
        "N::<90>" => Box::new(N::<90>(node)),
        "N::<91>" => Box::new(N::<91>(node)),
        "N::<92>" => Box::new(N::<92>(node)),
        "N::<93>" => Box::new(N::<93>(node)),
        "N::<94>" => Box::new(N::<94>(node)),
        "N::<95>" => Box::new(N::<95>(node)),
        "N::<96>" => Box::new(N::<96>(node)),
        "N::<97>" => Box::new(N::<97>(node)),
        "N::<98>" => Box::new(N::<98>(node)),
        "N::<99>" => Box::new(N::<99>(node)),
        "N::<100>" => Box::new(N::<100>(node)),
        "N::<101>" => Box::new(N::<101>(node)),
        "N::<102>" => Box::new(N::<102>(node)),
        "N::<103>" => Box::new(N::<103>(node)),
        "N::<104>" => Box::new(N::<104>(node)),
        "N::<105>" => Box::new(N::<105>(node)),
        "N::<106>" => Box::new(N::<106>(node)),
        "N::<107>" => Box::new(N::<107>(node)),
        "N::<108>" => Box::new(N::<108>(node)),
        "N::<109>" => Box::new(N::<109>(node)),
        "N::<110>" => Box::new(N::<110>(node)),
        "N::<111>" => Box::new(N::<111>(node)),
        "N::<112>" => Box::new(N::<112>(node)),
        "N::<113>" => Box::new(N::<113>(node)),
        "N::<114>" => Box::new(N::<114>(node)),
        "N::<115>" => Box::new(N::<115>(node)),
        "N::<116>" => Box::new(N::<116>(node)),
        "N::<117>" => Box::new(N::<117>(node)),
        "N::<118>" => Box::new(N::<118>(node)),
        "N::<119>" => Box::new(N::<119>(node)),
        "N::<120>" => Box::new(N::<120>(node)),
        "N::<121>" => Box::new(N::<121>(node)),
        "N::<122>" => Box::new(N::<122>(node)),
        "N::<123>" => Box::new(N::<123>(node)),
        "N::<124>" => Box::new(N::<124>(node)),
        "N::<125>" => Box::new(N::<125>(node)),
        "N::<126>" => Box::new(N::<126>(node)),
        "N::<127>" => Box::new(N::<127>(node)),
        "N::<128>" => Box::new(N::<128>(node)),
        "N::<129>" => Box::new(N::<129>(node)),
        "N::<130>" => Box::new(N::<130>(node)),
        "N::<131>" => Box::new(N::<131>(node)),
        "N::<132>" => Box::new(N::<132>(node)),
        "N::<133>" => Box::new(N::<133>(node)),
        "N::<134>" => Box::new(N::<134>(node)),
        "N::<135>" => Box::new(N::<135>(node)),
        "N::<136>" => Box::new(N::<136>(node)),
        "N::<137>" => Box::new(N::<137>(node)),
        "N::<138>" => Box::new(N::<138>(node)),
        "N::<139>" => Box::new(N::<139>(node)),
        "N::<140>" => Box::new(N::<140>(node)),
        "N::<141>" => Box::new(N::<141>(node)),
        "N::<142>" => Box::new(N::<142>(node)),
        "N::<143>" => Box::new(N::<143>(node)),
        "N::<144>" => Box::new(N::<144>(node)),
        "N::<145>" => Box::new(N::<145>(node)),
        "N::<146>" => Box::new(N::<146>(node)),
        "N::<147>" => Box::new(N::<147>(node)),
        "N::<148>" => Box::new(N::<148>(node)),
        "N::<149>" => Box::new(N::<149>(node)),
        "N::<150>" => Box::new(N::<150>(node)),
        "N::<151>" => Box::new(N::<151>(node)),
        "N::<152>" => Box::new(N::<152>(node)),
        "N::<153>" => Box::new(N::<153>(node)),
        "N::<154>" => Box::new(N::<154>(node)),
        "N::<155>" => Box::new(N::<155>(node)),
        "N::<156>" => Box::new(N::<156>(node)),
        "N::<157>" => Box::new(N::<157>(node)),
        "N::<158>" => Box::new(N::<158>(node)),
        "N::<159>" => Box::new(N::<159>(node)),
        "N::<160>" => Box::new(N::<160>(node)),
        "N::<161>" => Box::new(N::<161>(node)),
        "N::<162>" => Box::new(N::<162>(node)),
        "N::<163>" => Box::new(N::<163>(node)),
        "N::<164>" => Box::new(N::<164>(node)),
        "N::<165>" => Box::new(N::<165>(node)),
        "N::<166>" => Box::new(N::<166>(node)),
        "N::<167>" => Box::new(N::<167>(node)),
        "N::<168>" => Box::new(N::<168>(node)),
        "N::<169>" => Box::new(N::<169>(node)),
        "N::<170>" => Box::new(N::<170>(node)),
        "N::<171>" => Box::new(N::<171>(node)),
        "N::<172>" => Box::new(N::<172>(node)),
        "N::<173>" => Box::new(N::<173>(node)),
        "N::<174>" => Box::new(N::<174>(node)),
        "N::<175>" => Box::new(N::<175>(node)),
        "N::<176>" => Box::new(N::<176>(node)),
        "N::<177>" => Box::new(N::<177>(node)),
        "N::<178>" => Box::new(N::<178>(node)),
        "N::<179>" => Box::new(N::<179>(node)),
        "N::<180>" => Box::new(N::<180>(node)),
        "N::<181>" => Box::new(N::<181>(node)),
        "N::<182>" => Box::new(N::<182>(node)),
        "N::<183>" => Box::new(N::<183>(node)),
        "N::<184>" => Box::new(N::<184>(node)),
        "N::<185>" => Box::new(N::<185>(node)),
        "N::<186>" => Box::new(N::<186>(node)),
        "N::<187>" => Box::new(N::<187>(node)),
        "N::<188>" => Box::new(N::<188>(node)),
        "N::<189>" => Box::new(N::<189>(node)),
        "N::<190>" => Box::new(N::<190>(node)),
        "N::<191>" => Box::new(N::<191>(node)),
        "N::<192>" => Box::new(N::<192>(node)),
        "N::<193>" => Box::new(N::<193>(node)),
        "N::<194>" => Box::new(N::<194>(node)),
        "N::<195>" => Box::new(N::<195>(node)),
        "N::<196>" => Box::new(N::<196>(node)),
        "N::<197>" => Box::new(N::<197>(node)),
        "N::<198>" => Box::new(N::<198>(node)),
        "N::<199>" => Box::new(N::<199>(node)),
        "N::<200>" => Box::new(N::<200>(node)),
        "N::<201>" => Box::new(N::<201>(node)),
        "N::<202>" => Box::new(N::<202>(node)),
        "N::<203>" => Box::new(N::<203>(node)),
        "N::<204>" => Box::new(N::<204>(node)),
        "N::<205>" => Box::new(N::<205>(node)),
        "N::<206>" => Box::new(N::<206>(node)),
        "N::<207>" => Box::new(N::<207>(node)),
        "N::<208>" => Box::new(N::<208>(node)),
        "N::<209>" => Box::new(N::<209>(node)),
        "N::<210>" => Box::new(N::<210>(node)),
        "N::<211>" => Box::new(N::<211>(node)),
        "N::<212>" => Box::new(N::<212>(node)),
        "N::<213>" => Box::new(N::<213>(node)),
        "N::<214>" => Box::new(N::<214>(node)),
        "N::<215>" => Box::new(N::<215>(node)),
        "N::<216>" => Box::new(N::<216>(node)),
        "N::<217>" => Box::new(N::<217>(node)),
        "N::<218>" => Box::new(N::<218>(node)),
        "N::<219>" => Box::new(N::<219>(node)),
        "N::<220>" => Box::new(N::<220>(node)),
        "N::<221>" => Box::new(N::<221>(node)),
        "N::<222>" => Box::new(N::<222>(node)),
        "N::<223>" => Box::new(N::<223>(node)),
        "N::<224>" => Box::new(N::<224>(node)),
        "N::<225>" => Box::new(N::<225>(node)),
        "N::<226>" => Box::new(N::<226>(node)),
        "N::<227>" => Box::new(N::<227>(node)),
        "N::<228>" => Box::new(N::<228>(node)),
        "N::<229>" => Box::new(N::<229>(node)),
        "N::<230>" => Box::new(N::<230>(node)),
        "N::<231>" => Box::new(N::<231>(node)),
        "N::<232>" => Box::new(N::<232>(node)),
        "N::<233>" => Box::new(N::<233>(node)),
        "N::<234>" => Box::new(N::<234>(node)),
        "N::<235>" => Box::new(N::<235>(node)),
        "N::<236>" => Box::new(N::<236>(node)),
        "N::<237>" => Box::new(N::<237>(node)),
        "N::<238>" => Box::new(N::<238>(node)),
        "N::<239>" => Box::new(N::<239>(node)),
        "N::<240>" => Box::new(N::<240>(node)),
        "N::<241>" => Box::new(N::<241>(node)),
        "N::<242>" => Box::new(N::<242>(node)),
        "N::<243>" => Box::new(N::<243>(node)),
        "N::<244>" => Box::new(N::<244>(node)),
        "N::<245>" => Box::new(N::<245>(node)),
        "N::<246>" => Box::new(N::<246>(node)),
        "N::<247>" => Box::new(N::<247>(node)),
        "N::<248>" => Box::new(N::<248>(node)),
        "N::<249>" => Box::new(N::<249>(node)),
        "N::<250>" => Box::new(N::<250>(node)),
        "N::<251>" => Box::new(N::<251>(node)),
        "N::<252>" => Box::new(N::<252>(node)),
        "N::<253>" => Box::new(N::<253>(node)),
        "N::<254>" => Box::new(N::<254>(node)),
        "N::<255>" => Box::new(N::<255>(node)),
        "N::<256>" => Box::new(N::<256>(node)),
        "N::<257>" => Box::new(N::<257>(node)),
        "N::<258>" => Box::new(N::<258>(node)),
        "N::<259>" => Box::new(N::<259>(node)),
        "N::<260>" => Box::new(N::<260>(node)),
        "N::<261>" => Box::new(N::<261>(node)),
        "N::<262>" => Box::new(N::<262>(node)),
        "N::<263>" => Box::new(N::<263>(node)),
        "N::<264>" => Box::new(N::<264>(node)),
        "N::<265>" => Box::new(N::<265>(node)),
        "N::<266>" => Box::new(N::<266>(node)),
        "N::<267>" => Box::new(N::<267>(node)),
        "N::<268>" => Box::new(N::<268>(node)),
        "N::<269>" => Box::new(N::<269>(node)),
        "N::<270>" => Box::new(N::<270>(node)),
        "N::<271>" => Box::new(N::<271>(node)),
        "N::<272>" => Box::new(N::<272>(node)),
        "N::<273>" => Box::new(N::<273>(node)),
        "N::<274>" => Box::new(N::<274>(node)),
        "N::<275>" => Box::new(N::<275>(node)),
        "N::<276>" => Box::new(N::<276>(node)),
        "N::<277>" => Box::new(N::<277>(node)),
        "N::<278>" => Box::new(N::<278>(node)),
        "N::<279>" => Box::new(N::<279>(node)),
        "N::<280>" => Box::new(N::<280>(node)),
        "N::<281>" => Box::new(N::<281>(node)),
        "N::<282>" => Box::new(N::<282>(node)),
        "N::<283>" => Box::new(N::<283>(node)),
        "N::<284>" => Box::new(N::<284>(node)),
        "N::<285>" => Box::new(N::<285>(node)),
        "N::<286>" => Box::new(N::<286>(node)),
        "N::<287>" => Box::new(N::<287>(node)),
        "N::<288>" => Box::new(N::<288>(node)),
        "N::<289>" => Box::new(N::<289>(node)),
        "N::<290>" => Box::new(N::<290>(node)),
        "N::<291>" => Box::new(N::<291>(node)),
        "N::<292>" => Box::new(N::<292>(node)),
        "N::<293>" => Box::new(N::<293>(node)),
        "N::<294>" => Box::new(N::<294>(node)),
        "N::<295>" => Box::new(N::<295>(node)),
        "N::<296>" => Box::new(N::<296>(node)),
        "N::<297>" => Box::new(N::<297>(node)),
        "N::<298>" => Box::new(N::<298>(node)),
        "N::<299>" => Box::new(N::<299>(node)),
        "N::<300>" => Box::new(N::<300>(node)),
        "N::<301>" => Box::new(N::<301>(node)),
        "N::<302>" => Box::new(N::<302>(node)),
        "N::<303>" => Box::new(N::<303>(node)),
        "N::<304>" => Box::new(N::<304>(node)),
        "N::<305>" => Box::new(N::<305>(node)),
        "N::<306>" => Box::new(N::<306>(node)),
        "N::<307>" => Box::new(N::<307>(node)),
        "N::<308>" => Box::new(N::<308>(node)),
        "N::<309>" => Box::new(N::<309>(node)),
        "N::<310>" => Box::new(N::<310>(node)),
        "N::<311>" => Box::new(N::<311>(node)),
        "N::<312>" => Box::new(N::<312>(node)),
        "N::<313>" => Box::new(N::<313>(node)),
        "N::<314>" => Box::new(N::<314>(node)),
        "N::<315>" => Box::new(N::<315>(node)),
        _ => no_type("big", ty),
    }
}
pub fn make_slowe(ty: &str, node: Node) -> Box<dyn TSlowe> {
    match ty {
        "N::<0>" => Box::new(N::<0>(node)),
        "N::<1>" => Box::new(N::<1>(node)),
        "N::<2>" => Box::new(N::<2>(node)),
        "N::<3>" => Box::new(N::<3>(node)),
        "N::<4>" => Box::new(N::<4>(node)),
        "N::<5>" => Box::new(N::<5>(node)),
        "N::<6>" => Box::new(N::<6>(node)),
        "N::<7>" => Box::new(N::<7>(node)),
        "N::<8>" => Box::new(N::<8>(node)),
        "N::<9>" => Box::new(N::<9>(node)),
        "N::<10>" => Box::new(N::<10>(node)),
        "N::<11>" => Box::new(N::<11>(node)),
        "N::<12>" => Box::new(N::<12>(node)),
        "N::<13>" => Box::new(N::<13>(node)),
        "N::<14>" => Box::new(N::<14>(node)),
        "N::<15>" => Box::new(N::<15>(node)),
        "N::<16>" => Box::new(N::<16>(node)),
        "N::<17>" => Box::new(N::<17>(node)),
        "N::<18>" => Box::new(N::<18>(node)),
        "N::<19>" => Box::new(N::<19>(node)),
        "N::<20>" => Box::new(N::<20>(node)),
        "N::<21>" => Box::new(N::<21>(node)),
        "N::<22>" => Box::new(N::<22>(node)),
        "N::<23>" => Box::new(N::<23>(node)),
        "N::<24>" => Box::new(N::<24>(node)),
        "N::<25>" => Box::new(N::<25>(node)),
        "N::<26>" => Box::new(N::<26>(node)),
        "N::<27>" => Box::new(N::<27>(node)),
        "N::<28>" => Box::new(N::<28>(node)),
        "N::<29>" => Box::new(N::<29>(node)),
        "N::<30>" => Box::new(N::<30>(node)),
        "N::<31>" => Box::new(N::<31>(node)),
        "N::<32>" => Box::new(N::<32>(node)),
        "N::<33>" => Box::new(N::<33>(node)),
        "N::<34>" => Box::new(N::<34>(node)),
        "N::<35>" => Box::new(N::<35>(node)),
        "N::<36>" => Box::new(N::<36>(node)),
        "N::<37>" => Box::new(N::<37>(node)),
        "N::<38>" => Box::new(N::<38>(node)),
        "N::<39>" => Box::new(N::<39>(node)),
        "N::<40>" => Box::new(N::<40>(node)),
        "N::<41>" => Box::new(N::<41>(node)),
        "N::<42>" => Box::new(N::<42>(node)),
        "N::<43>" => Box::new(N::<43>(node)),
        _ => no_type("slowe", ty),
    }
}
pub fn make_slowi(ty: &str, node: Node) -> Box<dyn TSlowi> {
    match ty {
        "N::<0>" => Box::new(N::<0>(node)),
        "N::<1>" => Box::new(N::<1>(node)),
        "N::<2>" => Box::new(N::<2>(node)),
        "N::<3>" => Box::new(N::<3>(node)),
        "N::<4>" => Box::new(N::<4>(node)),
        "N::<5>" => Box::new(N::<5>(node)),
        "N::<6>" => Box::new(N::<6>(node)),
        "N::<7>" => Box::new(N::<7>(node)),
        "N::<8>" => Box::new(N::<8>(node)),
        "N::<9>" => Box::new(N::<9>(node)),
        "N::<10>" => Box::new(N::<10>(node)),
        "N::<11>" => Box::new(N::<11>(node)),
        "N::<12>" => Box::new(N::<12>(node)),
        "N::<13>" => Box::new(N::<13>(node)),
        "N::<14>" => Box::new(N::<14>(node)),
        "N::<15>" => Box::new(N::<15>(node)),
        "N::<16>" => Box::new(N::<16>(node)),
        "N::<17>" => Box::new(N::<17>(node)),
        "N::<18>" => Box::new(N::<18>(node)),
        "N::<19>" => Box::new(N::<19>(node)),
        "N::<20>" => Box::new(N::<20>(node)),
        "N::<21>" => Box::new(N::<21>(node)),
        "N::<22>" => Box::new(N::<22>(node)),
        "N::<23>" => Box::new(N::<23>(node)),
        "N::<24>" => Box::new(N::<24>(node)),
        "N::<25>" => Box::new(N::<25>(node)),
        "N::<26>" => Box::new(N::<26>(node)),
        "N::<27>" => Box::new(N::<27>(node)),
        "N::<28>" => Box::new(N::<28>(node)),
        "N::<29>" => Box::new(N::<29>(node)),
        "N::<30>" => Box::new(N::<30>(node)),
        "N::<31>" => Box::new(N::<31>(node)),
        "N::<32>" => Box::new(N::<32>(node)),
        "N::<33>" => Box::new(N::<33>(node)),
        "N::<34>" => Box::new(N::<34>(node)),
        "N::<35>" => Box::new(N::<35>(node)),
        "N::<36>" => Box::new(N::<36>(node)),
        "N::<37>" => Box::new(N::<37>(node)),
        "N::<38>" => Box::new(N::<38>(node)),
        "N::<39>" => Box::new(N::<39>(node)),
        "N::<40>" => Box::new(N::<40>(node)),
        "N::<41>" => Box::new(N::<41>(node)),
        "N::<42>" => Box::new(N::<42>(node)),
        "N::<43>" => Box::new(N::<43>(node)),
        _ => no_type("slowi", ty),
    }
}
pub fn make_slowa(ty: &str, node: Node) -> Box<dyn TSlowa> {
    match ty {
        "N::<0>" => Box::new(N::<0>(node)),
        "N::<1>" => Box::new(N::<1>(node)),
        "N::<2>" => Box::new(N::<2>(node)),
        "N::<3>" => Box::new(N::<3>(node)),
        "N::<4>" => Box::new(N::<4>(node)),
        "N::<5>" => Box::new(N::<5>(node)),
        "N::<6>" => Box::new(N::<6>(node)),
        "N::<7>" => Box::new(N::<7>(node)),
        "N::<8>" => Box::new(N::<8>(node)),
        "N::<9>" => Box::new(N::<9>(node)),
        "N::<10>" => Box::new(N::<10>(node)),
        "N::<11>" => Box::new(N::<11>(node)),
        "N::<12>" => Box::new(N::<12>(node)),
        "N::<13>" => Box::new(N::<13>(node)),
        "N::<14>" => Box::new(N::<14>(node)),
        "N::<15>" => Box::new(N::<15>(node)),
        "N::<16>" => Box::new(N::<16>(node)),
        "N::<17>" => Box::new(N::<17>(node)),
        "N::<18>" => Box::new(N::<18>(node)),
        "N::<19>" => Box::new(N::<19>(node)),
        "N::<20>" => Box::new(N::<20>(node)),
        "N::<21>" => Box::new(N::<21>(node)),
        "N::<22>" => Box::new(N::<22>(node)),
        "N::<23>" => Box::new(N::<23>(node)),
        "N::<24>" => Box::new(N::<24>(node)),
        "N::<25>" => Box::new(N::<25>(node)),
        "N::<26>" => Box::new(N::<26>(node)),
        "N::<27>" => Box::new(N::<27>(node)),
        "N::<28>" => Box::new(N::<28>(node)),
        "N::<29>" => Box::new(N::<29>(node)),
        "N::<30>" => Box::new(N::<30>(node)),
        "N::<31>" => Box::new(N::<31>(node)),
        "N::<32>" => Box::new(N::<32>(node)),
        "N::<33>" => Box::new(N::<33>(node)),
        "N::<34>" => Box::new(N::<34>(node)),
        "N::<35>" => Box::new(N::<35>(node)),
        "N::<36>" => Box::new(N::<36>(node)),
        "N::<37>" => Box::new(N::<37>(node)),
        "N::<38>" => Box::new(N::<38>(node)),
        "N::<39>" => Box::new(N::<39>(node)),
        "N::<40>" => Box::new(N::<40>(node)),
        "N::<41>" => Box::new(N::<41>(node)),
        "N::<42>" => Box::new(N::<42>(node)),
        "N::<43>" => Box::new(N::<43>(node)),
        _ => no_type("slowa", ty),
    }
}
pub fn make_mextn(ty: &str, node: Node) -> Box<dyn TMextn> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Konst" => Box::new(Konst(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => no_type("mextn", ty),
    }
}
pub fn make_mextn_s(ty: &str, node: Node) -> Box<dyn TMextn + Send> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Konst" => Box::new(Konst(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => no_type("mextn", ty),
    }
}
pub fn make_mextn_y(ty: &str, node: Node) -> Box<dyn TMextn + Sync> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Konst" => Box::new(Konst(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => no_type("mextn", ty),
    }
}
pub fn make_mextn_b(ty: &str, node: Node) -> Box<dyn TMextn + Send + Sync> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Konst" => Box::new(Konst(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => no_type("mextn", ty),
    }
}
pub fn make_mexts(ty: &str, node: Node) -> Box<dyn TMexts> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Konst" => Box::new(Konst(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => no_type("mexts", ty),
    }
}
pub fn make_mexts_s(ty: &str, node: Node) -> Box<dyn TMexts + Send> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Konst" => Box::new(Konst(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => no_type("mexts", ty),
    }
}
pub fn make_mexts_y(ty: &str, node: Node) -> Box<dyn TMexts + Sync> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Konst" => Box::new(Konst(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => no_type("mexts", ty),
    }
}
pub fn make_mexts_b(ty: &str, node: Node) -> Box<dyn TMexts + Send + Sync> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Konst" => Box::new(Konst(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => no_type("mexts", ty),
    }
}
pub fn make_mexty(ty: &str, node: Node) -> Box<dyn TMexty> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Konst" => Box::new(Konst(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => no_type("mexty", ty),
    }
}
pub fn make_mexty_s(ty: &str, node: Node) -> Box<dyn TMexty + Send> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Konst" => Box::new(Konst(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => no_type("mexty", ty),
    }
}
pub fn make_mexty_y(ty: &str, node: Node) -> Box<dyn TMexty + Sync> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Konst" => Box::new(Konst(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => no_type("mexty", ty),
    }
}
pub fn make_mexty_b(ty: &str, node: Node) -> Box<dyn TMexty + Send + Sync> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Konst" => Box::new(Konst(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => no_type("mexty", ty),
    }
}
pub fn make_mextb(ty: &str, node: Node) -> Box<dyn TMextb> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Konst" => Box::new(Konst(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => no_type("mextb", ty),
    }
}
pub fn make_mextb_s(ty: &str, node: Node) -> Box<dyn TMextb + Send> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Konst" => Box::new(Konst(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => no_type("mextb", ty),
    }
}
pub fn make_mextb_y(ty: &str, node: Node) -> Box<dyn TMextb + Sync> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Konst" => Box::new(Konst(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => no_type("mextb", ty),
    }
}
pub fn make_mextb_b(ty: &str, node: Node) -> Box<dyn TMextb + Send + Sync> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Konst" => Box::new(Konst(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => no_type("mextb", ty),
    }
}
pub fn make_mintn(ty: &str, node: Node) -> Box<dyn TMintn> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Konst" => Box::new(Konst(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => no_type("mintn", ty),
    }
}
pub fn make_mintn_s(ty: &str, node: Node) -> Box<dyn TMintn + Send> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Konst" => Box::new(Konst(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => no_type("mintn", ty),
    }
}
pub fn make_mintn_y(ty: &str, node: Node) -> Box<dyn TMintn + Sync> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Konst" => Box::new(Konst(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => no_type("mintn", ty),
    }
}
pub fn make_mintn_b(ty: &str, node: Node) -> Box<dyn TMintn + Send + Sync> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Konst" => Box::new(Konst(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => no_type("mintn", ty),
    }
}
pub fn make_mints(ty: &str, node: Node) -> Box<dyn TMints> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Konst" => Box::new(Konst(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => no_type("mints", ty),
    }
}
pub fn make_mints_s(ty: &str, node: Node) -> Box<dyn TMints + Send> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Konst" => Box::new(Konst(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => no_type("mints", ty),
    }
}
pub fn make_mints_y(ty: &str, node: Node) -> Box<dyn TMints + Sync> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Konst" => Box::new(Konst(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => no_type("mints", ty),
    }
}
pub fn make_mints_b(ty: &str, node: Node) -> Box<dyn TMints + Send + Sync> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Konst" => Box::new(Konst(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => no_type("mints", ty),
    }
}
pub fn make_minty(ty: &str, node: Node) -> Box<dyn TMinty> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Konst" => Box::new(Konst(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => no_type("minty", ty),
    }
}
pub fn make_minty_s(ty: &str, node: Node) -> Box<dyn TMinty + Send> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Konst" => Box::new(Konst(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => no_type("minty", ty),
    }
}
pub fn make_minty_y(ty: &str, node: Node) -> Box<dyn TMinty + Sync> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Konst" => Box::new(Konst(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => no_type("minty", ty),
    }
}
pub fn make_minty_b(ty: &str, node: Node) -> Box<dyn TMinty + Send + Sync> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Konst" => Box::new(Konst(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => no_type("minty", ty),
    }
}
pub fn make_mintb(ty: &str, node: Node) -> Box<dyn TMintb> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Konst" => Box::new(Konst(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => no_type("mintb", ty),
    }
}
pub fn make_mintb_s(ty: &str, node: Node) -> Box<dyn TMintb + Send> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Konst" => Box::new(Konst(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => no_type("mintb", ty),
    }
}
pub fn make_mintb_y(ty: &str, node: Node) -> Box<dyn TMintb + Sync> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Konst" => Box::new(Konst(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => no_type("mintb", ty),
    }
}
pub fn make_mintb_b(ty: &str, node: Node) -> Box<dyn TMintb + Send + Sync> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Konst" => Box::new(Konst(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => no_type("mintb", ty),
    }
}
pub fn make_madjn(ty: &str, node: Node) -> Box<dyn TMadjn> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Konst" => Box::new(Konst(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => no_type("madjn", ty),
    }
}
pub fn make_madjn_s(ty: &str, node: Node) -> Box<dyn TMadjn + Send> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Konst" => Box::new(Konst(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => no_type("madjn", ty),
    }
}
pub fn make_madjn_y(ty: &str, node: Node) -> Box<dyn TMadjn + Sync> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Konst" => Box::new(Konst(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => no_type("madjn", ty),
    }
}
pub fn make_madjn_b(ty: &str, node: Node) -> Box<dyn TMadjn + Send + Sync> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Konst" => Box::new(Konst(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => no_type("madjn", ty),
    }
}
pub fn make_madjs(ty: &str, node: Node) -> Box<dyn TMadjs> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Konst" => Box::new(Konst(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => no_type("madjs", ty),
    }
}
pub fn make_madjs_s(ty: &str, node: Node) -> Box<dyn TMadjs + Send> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Konst" => Box::new(Konst(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => no_type("madjs", ty),
    }
}
pub fn make_madjs_y(ty: &str, node: Node) -> Box<dyn TMadjs + Sync> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Konst" => Box::new(Konst(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => no_type("madjs", ty),
    }
}
pub fn make_madjs_b(ty: &str, node: Node) -> Box<dyn TMadjs + Send + Sync> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Konst" => Box::new(Konst(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => no_type("madjs", ty),
    }
}
pub fn make_madjy(ty: &str, node: Node) -> Box<dyn TMadjy> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Konst" => Box::new(Konst(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => no_type("madjy", ty),
    }
}
pub fn make_madjy_s(ty: &str, node: Node) -> Box<dyn TMadjy + Send> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Konst" => Box::new(Konst(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => no_type("madjy", ty),
    }
}
pub fn make_madjy_y(ty: &str, node: Node) -> Box<dyn TMadjy + Sync> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Konst" => Box::new(Konst(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => no_type("madjy", ty),
    }
}
pub fn make_madjy_b(ty: &str, node: Node) -> Box<dyn TMadjy + Send + Sync> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Konst" => Box::new(Konst(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => no_type("madjy", ty),
    }
}
pub fn make_madjb(ty: &str, node: Node) -> Box<dyn TMadjb> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Konst" => Box::new(Konst(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => no_type("madjb", ty),
    }
}
pub fn make_madjb_s(ty: &str, node: Node) -> Box<dyn TMadjb + Send> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Konst" => Box::new(Konst(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => no_type("madjb", ty),
    }
}
pub fn make_madjb_y(ty: &str, node: Node) -> Box<dyn TMadjb + Sync> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Konst" => Box::new(Konst(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => no_type("madjb", ty),
    }
}
pub fn make_madjb_b(ty: &str, node: Node) -> Box<dyn TMadjb + Send + Sync> {
    match ty {
        "A" => Box::new(A(node)),
        "B" => Box::new(B(node)),
        "C" => Box::new(C(node)),
        "Dup1" => Box::new(Dup1(node)),
        "Dup2" => Box::new(Dup2(node)),
        "Konst" => Box::new(Konst(node)),
        "Sizeless" => Box::new(sizeless(node)),
        "Wide" => Box::new(wide(node)),
        "Only" => Box::new(Only(node)),
        _ => no_type("madjb", ty),
    }
}

/// Serializes `node` as the trait object of type `ty` (or of the first type
/// with that tag).
pub fn ser_obj<S: Serializer>(cfg: &str, tag: &str, node: &Node, s: S) -> Result<S::Ok, S::Error> {
    let ty = ALL.iter().find(|m| m.cfg == cfg && m.tag == tag)
        .map_or_else(|| no_type(cfg, tag), |m| m.ty);
    match cfg {
        "ext0" => make_ext0(ty, node.clone()).serialize(s),
        "int0" => make_int0(ty, node.clone()).serialize(s),
        "int1" => make_int1(ty, node.clone()).serialize(s),
        "int2" => make_int2(ty, node.clone()).serialize(s),
        "int3" => make_int3(ty, node.clone()).serialize(s),
        "int4" => make_int4(ty, node.clone()).serialize(s),
        "int5" => make_int5(ty, node.clone()).serialize(s),
        "int6" => make_int6(ty, node.clone()).serialize(s),
        "int7" => make_int7(ty, node.clone()).serialize(s),
        "adj0" => make_adj0(ty, node.clone()).serialize(s),
        "adj1" => make_adj1(ty, node.clone()).serialize(s),
        "adj2" => make_adj2(ty, node.clone()).serialize(s),
        "adj3" => make_adj3(ty, node.clone()).serialize(s),
        "adj4" => make_adj4(ty, node.clone()).serialize(s),
        "adj5" => make_adj5(ty, node.clone()).serialize(s),
        "adj6" => make_adj6(ty, node.clone()).serialize(s),
        "adj7" => make_adj7(ty, node.clone()).serialize(s),
        "adj8" => make_adj8(ty, node.clone()).serialize(s),
        "adj9" => make_adj9(ty, node.clone()).serialize(s),
        _ => panic!("configuration {}", cfg),
    }
}

pub fn de_obj<'de, D: Deserializer<'de>>(cfg: &'static str, d: D) -> Result<Node, D::Error> {
    match cfg {
        "ext0" => Box::<dyn TExt0>::deserialize(d).map(|b| got(cfg, b.who(), b.node())),
        "int0" => Box::<dyn TInt0>::deserialize(d).map(|b| got(cfg, b.who(), b.node())),
        "int1" => Box::<dyn TInt1>::deserialize(d).map(|b| got(cfg, b.who(), b.node())),
        "int2" => Box::<dyn TInt2>::deserialize(d).map(|b| got(cfg, b.who(), b.node())),
        "int3" => Box::<dyn TInt3>::deserialize(d).map(|b| got(cfg, b.who(), b.node())),
        "int4" => Box::<dyn TInt4>::deserialize(d).map(|b| got(cfg, b.who(), b.node())),
        "int5" => Box::<dyn TInt5>::deserialize(d).map(|b| got(cfg, b.who(), b.node())),
        "int6" => Box::<dyn TInt6>::deserialize(d).map(|b| got(cfg, b.who(), b.node())),
        "int7" => Box::<dyn TInt7>::deserialize(d).map(|b| got(cfg, b.who(), b.node())),
        "adj0" => Box::<dyn TAdj0>::deserialize(d).map(|b| got(cfg, b.who(), b.node())),
        "adj1" => Box::<dyn TAdj1>::deserialize(d).map(|b| got(cfg, b.who(), b.node())),
        "adj2" => Box::<dyn TAdj2>::deserialize(d).map(|b| got(cfg, b.who(), b.node())),
        "adj3" => Box::<dyn TAdj3>::deserialize(d).map(|b| got(cfg, b.who(), b.node())),
        "adj4" => Box::<dyn TAdj4>::deserialize(d).map(|b| got(cfg, b.who(), b.node())),
        "adj5" => Box::<dyn TAdj5>::deserialize(d).map(|b| got(cfg, b.who(), b.node())),
        "adj6" => Box::<dyn TAdj6>::deserialize(d).map(|b| got(cfg, b.who(), b.node())),
        "adj7" => Box::<dyn TAdj7>::deserialize(d).map(|b| got(cfg, b.who(), b.node())),
        "adj8" => Box::<dyn TAdj8>::deserialize(d).map(|b| got(cfg, b.who(), b.node())),
        "adj9" => Box::<dyn TAdj9>::deserialize(d).map(|b| got(cfg, b.who(), b.node())),
        _ => panic!("configuration {}", cfg),
    }
}

fn got(cfg: &'static str, ty: &'static str, node: &Node) -> Node {
    Node::Obj(cfg, tag_of(cfg, ty), Box::new(node.clone()))
}

/// The traits with marker supertraits or only one direction, through every
/// combination of Send and Sync (`mk`) that exists.
pub fn ser_marker<S: Serializer>(cfg: &str, mk: &str, tag: &str, node: &Node, s: S) -> Result<S::Ok, S::Error> {
    let ty = ALL.iter().find(|m| m.cfg == cfg && m.tag == tag)
        .map_or_else(|| no_type(cfg, tag), |m| m.ty);
    match (cfg, mk) {
        ("sero", "") => make_sero(ty, node.clone()).serialize(s),
        ("serx", "") => make_serx(ty, node.clone()).serialize(s),
        ("sera", "") => make_sera(ty, node.clone()).serialize(s),
        ("big", "") => make_big(ty, node.clone()).serialize(s),
        ("slowe", "") => make_slowe(ty, node.clone()).serialize(s),
        ("slowi", "") => make_slowi(ty, node.clone()).serialize(s),
        ("slowa", "") => make_slowa(ty, node.clone()).serialize(s),
        ("mextn", "") => make_mextn(ty, node.clone()).serialize(s),
        ("mextn", "s") => make_mextn_s(ty, node.clone()).serialize(s),
        ("mextn", "y") => make_mextn_y(ty, node.clone()).serialize(s),
        ("mextn", "b") => make_mextn_b(ty, node.clone()).serialize(s),
        ("mexts", "") => make_mexts(ty, node.clone()).serialize(s),
        ("mexts", "s") => make_mexts_s(ty, node.clone()).serialize(s),
        ("mexts", "y") => make_mexts_y(ty, node.clone()).serialize(s),
        ("mexts", "b") => make_mexts_b(ty, node.clone()).serialize(s),
        ("mexty", "") => make_mexty(ty, node.clone()).serialize(s),
        ("mexty", "s") => make_mexty_s(ty, node.clone()).serialize(s),
        ("mexty", "y") => make_mexty_y(ty, node.clone()).serialize(s),
        ("mexty", "b") => make_mexty_b(ty, node.clone()).serialize(s),
        ("mextb", "") => make_mextb(ty, node.clone()).serialize(s),
        ("mextb", "s") => make_mextb_s(ty, node.clone()).serialize(s),
        ("mextb", "y") => make_mextb_y(ty, node.clone()).serialize(s),
        ("mextb", "b") => make_mextb_b(ty, node.clone()).serialize(s),
        ("mintn", "") => make_mintn(ty, node.clone()).serialize(s),
        ("mintn", "s") => make_mintn_s(ty, node.clone()).serialize(s),
        ("mintn", "y") => make_mintn_y(ty, node.clone()).serialize(s),
        ("mintn", "b") => make_mintn_b(ty, node.clone()).serialize(s),
        ("mints", "") => make_mints(ty, node.clone()).serialize(s),
        ("mints", "s") => make_mints_s(ty, node.clone()).serialize(s),
        ("mints", "y") => make_mints_y(ty, node.clone()).serialize(s),
        ("mints", "b") => make_mints_b(ty, node.clone()).serialize(s),
        ("minty", "") => make_minty(ty, node.clone()).serialize(s),
        ("minty", "s") => make_minty_s(ty, node.clone()).serialize(s),
        ("minty", "y") => make_minty_y(ty, node.clone()).serialize(s),
        ("minty", "b") => make_minty_b(ty, node.clone()).serialize(s),
        ("mintb", "") => make_mintb(ty, node.clone()).serialize(s),
        ("mintb", "s") => make_mintb_s(ty, node.clone()).serialize(s),
        ("mintb", "y") => make_mintb_y(ty, node.clone()).serialize(s),
        ("mintb", "b") => make_mintb_b(ty, node.clone()).serialize(s),
        ("madjn", "") => make_madjn(ty, node.clone()).serialize(s),
        ("madjn", "s") => make_madjn_s(ty, node.clone()).serialize(s),
        ("madjn", "y") => make_madjn_y(ty, node.clone()).serialize(s),
        ("madjn", "b") => make_madjn_b(ty, node.clone()).serialize(s),
        ("madjs", "") => make_madjs(ty, node.clone()).serialize(s),
        ("madjs", "s") => make_madjs_s(ty, node.clone()).serialize(s),
        ("madjs", "y") => make_madjs_y(ty, node.clone()).serialize(s),
        ("madjs", "b") => make_madjs_b(ty, node.clone()).serialize(s),
        ("madjy", "") => make_madjy(ty, node.clone()).serialize(s),
        ("madjy", "s") => make_madjy_s(ty, node.clone()).serialize(s),
        ("madjy", "y") => make_madjy_y(ty, node.clone()).serialize(s),
        ("madjy", "b") => make_madjy_b(ty, node.clone()).serialize(s),
        ("madjb", "") => make_madjb(ty, node.clone()).serialize(s),
        ("madjb", "s") => make_madjb_s(ty, node.clone()).serialize(s),
        ("madjb", "y") => make_madjb_y(ty, node.clone()).serialize(s),
        ("madjb", "b") => make_madjb_b(ty, node.clone()).serialize(s),
        _ => panic!("configuration {} {}", cfg, mk),
    }
}

pub fn de_marker<'de, D: Deserializer<'de>>(cfg: &'static str, mk: &str, d: D) -> Result<Node, D::Error> {
    match (cfg, mk) {
        ("deo", "") => Box::<dyn TDeo>::deserialize(d).map(|b| got(cfg, b.who(), b.node())),
        ("dex", "") => Box::<dyn TDex>::deserialize(d).map(|b| got(cfg, b.who(), b.node())),
        ("dea", "") => Box::<dyn TDea>::deserialize(d).map(|b| got(cfg, b.who(), b.node())),
        ("big", "") => Box::<dyn TBig>::deserialize(d).map(|b| got(cfg, b.who(), b.node())),
        ("slowe", "") => Box::<dyn TSlowe>::deserialize(d).map(|b| got(cfg, b.who(), b.node())),
        ("slowi", "") => Box::<dyn TSlowi>::deserialize(d).map(|b| got(cfg, b.who(), b.node())),
        ("slowa", "") => Box::<dyn TSlowa>::deserialize(d).map(|b| got(cfg, b.who(), b.node())),
        ("mextn", "") => Box::<dyn TMextn>::deserialize(d).map(|b| got(cfg, b.who(), b.node())),
        ("mexts", "") => Box::<dyn TMexts>::deserialize(d).map(|b| got(cfg, b.who(), b.node())),
        ("mexts", "s") => Box::<dyn TMexts + Send>::deserialize(d).map(|b| got(cfg, b.who(), b.node())),
        ("mexty", "") => Box::<dyn TMexty>::deserialize(d).map(|b| got(cfg, b.who(), b.node())),
        ("mexty", "y") => Box::<dyn TMexty + Sync>::deserialize(d).map(|b| got(cfg, b.who(), b.node())),
        ("mextb", "") => Box::<dyn TMextb>::deserialize(d).map(|b| got(cfg, b.who(), b.node())),
        ("mextb", "s") => Box::<dyn TMextb + Send>::deserialize(d).map(|b| got(cfg, b.who(), b.node())),
        ("mextb", "y") => Box::<dyn TMextb + Sync>::deserialize(d).map(|b| got(cfg, b.who(), b.node())),
        ("mextb", "b") => Box::<dyn TMextb + Send + Sync>::deserialize(d).map(|b| got(cfg, b.who(), b.node())),
        ("mintn", "") => Box::<dyn TMintn>::deserialize(d).map(|b| got(cfg, b.who(), b.node())),
        ("mints", "") => Box::<dyn TMints>::deserialize(d).map(|b| got(cfg, b.who(), b.node())),
        ("mints", "s") => Box::<dyn TMints + Send>::deserialize(d).map(|b| got(cfg, b.who(), b.node())),
        ("minty", "") => Box::<dyn TMinty>::deserialize(d).map(|b| got(cfg, b.who(), b.node())),
        ("minty", "y") => Box::<dyn TMinty + Sync>::deserialize(d).map(|b| got(cfg, b.who(), b.node())),
        ("mintb", "") => Box::<dyn TMintb>::deserialize(d).map(|b| got(cfg, b.who(), b.node())),
        ("mintb", "s") => Box::<dyn TMintb + Send>::deserialize(d).map(|b| got(cfg, b.who(), b.node())),
        ("mintb", "y") => Box::<dyn TMintb + Sync>::deserialize(d).map(|b| got(cfg, b.who(), b.node())),
        ("mintb", "b") => Box::<dyn TMintb + Send + Sync>::deserialize(d).map(|b| got(cfg, b.who(), b.node())),
        ("madjn", "") => Box::<dyn TMadjn>::deserialize(d).map(|b| got(cfg, b.who(), b.node())),
        ("madjs", "") => Box::<dyn TMadjs>::deserialize(d).map(|b| got(cfg, b.who(), b.node())),
        ("madjs", "s") => Box::<dyn TMadjs + Send>::deserialize(d).map(|b| got(cfg, b.who(), b.node())),
        ("madjy", "") => Box::<dyn TMadjy>::deserialize(d).map(|b| got(cfg, b.who(), b.node())),
        ("madjy", "y") => Box::<dyn TMadjy + Sync>::deserialize(d).map(|b| got(cfg, b.who(), b.node())),
        ("madjb", "") => Box::<dyn TMadjb>::deserialize(d).map(|b| got(cfg, b.who(), b.node())),
        ("madjb", "s") => Box::<dyn TMadjb + Send>::deserialize(d).map(|b| got(cfg, b.who(), b.node())),
        ("madjb", "y") => Box::<dyn TMadjb + Sync>::deserialize(d).map(|b| got(cfg, b.who(), b.node())),
        ("madjb", "b") => Box::<dyn TMadjb + Send + Sync>::deserialize(d).map(|b| got(cfg, b.who(), b.node())),
        _ => panic!("configuration {} {}", cfg, mk),
    }
}

pub fn de_markers(cfg: &str) -> &'static [&'static str] {
    match cfg {
        "deo" => &[""],
        "dex" => &[""],
        "dea" => &[""],
        "big" => &[""],
        "slowe" => &[""],
        "slowi" => &[""],
        "slowa" => &[""],
        "mextn" => &[""],
        "mexts" => &["", "s"],
        "mexty" => &["", "y"],
        "mextb" => &["", "s", "y", "b"],
        "mintn" => &[""],
        "mints" => &["", "s"],
        "minty" => &["", "y"],
        "mintb" => &["", "s", "y", "b"],
        "madjn" => &[""],
        "madjs" => &["", "s"],
        "madjy" => &["", "y"],
        "madjb" => &["", "s", "y", "b"],
        _ => &[],
    }
}
