// Generated by tools/gen_cfg.py; do not edit.

//! Implementations in another crate than their traits.

use vcore::node::Node;
use vcore::traits::*;

vcore::concrete! { XA DupX2 XZ }

#[typetag::serde]
impl TExt0 for XA {}
#[typetag::serde(name = "dupx")]
impl TExt0 for DupX2 {}
#[typetag::serde(name = "~last")]
impl TExt0 for XZ {}
#[typetag::serde]
impl TInt0 for XA {}
#[typetag::serde(name = "dupx")]
impl TInt0 for DupX2 {}
#[typetag::serde(name = "~last")]
impl TInt0 for XZ {}
#[typetag::serde]
impl TInt1 for XA {}
#[typetag::serde(name = "dupx")]
impl TInt1 for DupX2 {}
#[typetag::serde(name = "~last")]
impl TInt1 for XZ {}
#[typetag::serde]
impl TInt2 for XA {}
#[typetag::serde(name = "dupx")]
impl TInt2 for DupX2 {}
#[typetag::serde(name = "~last")]
impl TInt2 for XZ {}
#[typetag::serde]
impl TInt3 for XA {}
#[typetag::serde(name = "dupx")]
impl TInt3 for DupX2 {}
#[typetag::serde(name = "~last")]
impl TInt3 for XZ {}
#[typetag::serde]
impl TInt4 for XA {}
#[typetag::serde(name = "dupx")]
impl TInt4 for DupX2 {}
#[typetag::serde(name = "~last")]
impl TInt4 for XZ {}
#[typetag::serde]
impl TInt5 for XA {}
#[typetag::serde(name = "dupx")]
impl TInt5 for DupX2 {}
#[typetag::serde(name = "~last")]
impl TInt5 for XZ {}
#[typetag::serde]
impl TInt6 for XA {}
#[typetag::serde(name = "dupx")]
impl TInt6 for DupX2 {}
#[typetag::serde(name = "~last")]
impl TInt6 for XZ {}
#[typetag::serde]
impl TInt7 for XA {}
#[typetag::serde(name = "dupx")]
impl TInt7 for DupX2 {}
#[typetag::serde(name = "~last")]
impl TInt7 for XZ {}
#[typetag::serde]
impl TAdj0 for XA {}
#[typetag::serde(name = "dupx")]
impl TAdj0 for DupX2 {}
#[typetag::serde(name = "~last")]
impl TAdj0 for XZ {}
#[typetag::serde]
impl TAdj1 for XA {}
#[typetag::serde(name = "dupx")]
impl TAdj1 for DupX2 {}
#[typetag::serde(name = "~last")]
impl TAdj1 for XZ {}
#[typetag::serde]
impl TAdj2 for XA {}
#[typetag::serde(name = "dupx")]
impl TAdj2 for DupX2 {}
#[typetag::serde(name = "~last")]
impl TAdj2 for XZ {}
#[typetag::serde]
impl TAdj3 for XA {}
#[typetag::serde(name = "dupx")]
impl TAdj3 for DupX2 {}
#[typetag::serde(name = "~last")]
impl TAdj3 for XZ {}
#[typetag::serde]
impl TAdj4 for XA {}
#[typetag::serde(name = "dupx")]
impl TAdj4 for DupX2 {}
#[typetag::serde(name = "~last")]
impl TAdj4 for XZ {}
#[typetag::serde]
impl TAdj5 for XA {}
#[typetag::serde(name = "dupx")]
impl TAdj5 for DupX2 {}
#[typetag::serde(name = "~last")]
impl TAdj5 for XZ {}
#[typetag::serde]
impl TAdj6 for XA {}
#[typetag::serde(name = "dupx")]
impl TAdj6 for DupX2 {}
#[typetag::serde(name = "~last")]
impl TAdj6 for XZ {}
#[typetag::serde]
impl TAdj7 for XA {}
#[typetag::serde(name = "dupx")]
impl TAdj7 for DupX2 {}
#[typetag::serde(name = "~last")]
impl TAdj7 for XZ {}
#[typetag::serde]
impl TAdj8 for XA {}
#[typetag::serde(name = "dupx")]
impl TAdj8 for DupX2 {}
#[typetag::serde(name = "~last")]
impl TAdj8 for XZ {}
#[typetag::serde]
impl TAdj9 for XA {}
#[typetag::serde(name = "dupx")]
impl TAdj9 for DupX2 {}
#[typetag::serde(name = "~last")]
impl TAdj9 for XZ {}

pub fn make(cfg: &str, ty: &str, node: Node) -> Option<Box<dyn std::any::Any>> {
    match (cfg, ty) {
        ("ext0", "XA") => Some(Box::new(Box::new(XA(node)) as Box<dyn TExt0>)),
        ("ext0", "DupX2") => Some(Box::new(Box::new(DupX2(node)) as Box<dyn TExt0>)),
        ("ext0", "XZ") => Some(Box::new(Box::new(XZ(node)) as Box<dyn TExt0>)),
        ("int0", "XA") => Some(Box::new(Box::new(XA(node)) as Box<dyn TInt0>)),
        ("int0", "DupX2") => Some(Box::new(Box::new(DupX2(node)) as Box<dyn TInt0>)),
        ("int0", "XZ") => Some(Box::new(Box::new(XZ(node)) as Box<dyn TInt0>)),
        ("int1", "XA") => Some(Box::new(Box::new(XA(node)) as Box<dyn TInt1>)),
        ("int1", "DupX2") => Some(Box::new(Box::new(DupX2(node)) as Box<dyn TInt1>)),
        ("int1", "XZ") => Some(Box::new(Box::new(XZ(node)) as Box<dyn TInt1>)),
        ("int2", "XA") => Some(Box::new(Box::new(XA(node)) as Box<dyn TInt2>)),
        ("int2", "DupX2") => Some(Box::new(Box::new(DupX2(node)) as Box<dyn TInt2>)),
        ("int2", "XZ") => Some(Box::new(Box::new(XZ(node)) as Box<dyn TInt2>)),
        ("int3", "XA") => Some(Box::new(Box::new(XA(node)) as Box<dyn TInt3>)),
        ("int3", "DupX2") => Some(Box::new(Box::new(DupX2(node)) as Box<dyn TInt3>)),
        ("int3", "XZ") => Some(Box::new(Box::new(XZ(node)) as Box<dyn TInt3>)),
        ("int4", "XA") => Some(Box::new(Box::new(XA(node)) as Box<dyn TInt4>)),
        ("int4", "DupX2") => Some(Box::new(Box::new(DupX2(node)) as Box<dyn TInt4>)),
        ("int4", "XZ") => Some(Box::new(Box::new(XZ(node)) as Box<dyn TInt4>)),
        ("int5", "XA") => Some(Box::new(Box::new(XA(node)) as Box<dyn TInt5>)),
        ("int5", "DupX2") => Some(Box::new(Box::new(DupX2(node)) as Box<dyn TInt5>)),
        ("int5", "XZ") => Some(Box::new(Box::new(XZ(node)) as Box<dyn TInt5>)),
        ("int6", "XA") => Some(Box::new(Box::new(XA(node)) as Box<dyn TInt6>)),
        ("int6", "DupX2") => Some(Box::new(Box::new(DupX2(node)) as Box<dyn TInt6>)),
        ("int6", "XZ") => Some(Box::new(Box::new(XZ(node)) as Box<dyn TInt6>)),
        ("int7", "XA") => Some(Box::new(Box::new(XA(node)) as Box<dyn TInt7>)),
        ("int7", "DupX2") => Some(Box::new(Box::new(DupX2(node)) as Box<dyn TInt7>)),
        ("int7", "XZ") => Some(Box::new(Box::new(XZ(node)) as Box<dyn TInt7>)),
        ("adj0", "XA") => Some(Box::new(Box::new(XA(node)) as Box<dyn TAdj0>)),
        ("adj0", "DupX2") => Some(Box::new(Box::new(DupX2(node)) as Box<dyn TAdj0>)),
        ("adj0", "XZ") => Some(Box::new(Box::new(XZ(node)) as Box<dyn TAdj0>)),
        ("adj1", "XA") => Some(Box::new(Box::new(XA(node)) as Box<dyn TAdj1>)),
        ("adj1", "DupX2") => Some(Box::new(Box::new(DupX2(node)) as Box<dyn TAdj1>)),
        ("adj1", "XZ") => Some(Box::new(Box::new(XZ(node)) as Box<dyn TAdj1>)),
        ("adj2", "XA") => Some(Box::new(Box::new(XA(node)) as Box<dyn TAdj2>)),
        ("adj2", "DupX2") => Some(Box::new(Box::new(DupX2(node)) as Box<dyn TAdj2>)),
        ("adj2", "XZ") => Some(Box::new(Box::new(XZ(node)) as Box<dyn TAdj2>)),
        ("adj3", "XA") => Some(Box::new(Box::new(XA(node)) as Box<dyn TAdj3>)),
        ("adj3", "DupX2") => Some(Box::new(Box::new(DupX2(node)) as Box<dyn TAdj3>)),
        ("adj3", "XZ") => Some(Box::new(Box::new(XZ(node)) as Box<dyn TAdj3>)),
        ("adj4", "XA") => Some(Box::new(Box::new(XA(node)) as Box<dyn TAdj4>)),
        ("adj4", "DupX2") => Some(Box::new(Box::new(DupX2(node)) as Box<dyn TAdj4>)),
        ("adj4", "XZ") => Some(Box::new(Box::new(XZ(node)) as Box<dyn TAdj4>)),
        ("adj5", "XA") => Some(Box::new(Box::new(XA(node)) as Box<dyn TAdj5>)),
        ("adj5", "DupX2") => Some(Box::new(Box::new(DupX2(node)) as Box<dyn TAdj5>)),
        ("adj5", "XZ") => Some(Box::new(Box::new(XZ(node)) as Box<dyn TAdj5>)),
        ("adj6", "XA") => Some(Box::new(Box::new(XA(node)) as Box<dyn TAdj6>)),
        ("adj6", "DupX2") => Some(Box::new(Box::new(DupX2(node)) as Box<dyn TAdj6>)),
        ("adj6", "XZ") => Some(Box::new(Box::new(XZ(node)) as Box<dyn TAdj6>)),
        ("adj7", "XA") => Some(Box::new(Box::new(XA(node)) as Box<dyn TAdj7>)),
        ("adj7", "DupX2") => Some(Box::new(Box::new(DupX2(node)) as Box<dyn TAdj7>)),
        ("adj7", "XZ") => Some(Box::new(Box::new(XZ(node)) as Box<dyn TAdj7>)),
        ("adj8", "XA") => Some(Box::new(Box::new(XA(node)) as Box<dyn TAdj8>)),
        ("adj8", "DupX2") => Some(Box::new(Box::new(DupX2(node)) as Box<dyn TAdj8>)),
        ("adj8", "XZ") => Some(Box::new(Box::new(XZ(node)) as Box<dyn TAdj8>)),
        ("adj9", "XA") => Some(Box::new(Box::new(XA(node)) as Box<dyn TAdj9>)),
        ("adj9", "DupX2") => Some(Box::new(Box::new(DupX2(node)) as Box<dyn TAdj9>)),
        ("adj9", "XZ") => Some(Box::new(Box::new(XZ(node)) as Box<dyn TAdj9>)),
        _ => None,
    }
}
