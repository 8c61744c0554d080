//! Harness library: serde values and requests as data, reference formats,
//! and the traits under test.

pub mod doc;
pub mod node;
pub mod rec;
pub mod schema;
pub mod strict;
pub mod tok;
pub mod traits;
pub mod zoo;

/// A value read with the current top-level schema.
pub struct Top(pub node::Node);
impl<'de> serde::Deserialize<'de> for Top {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        schema::read_top(d).map(Top)
    }
}
