use crate::engine::Property;

pub mod kit;
pub mod app;
pub mod ident;
pub mod channel;
pub mod msg;
pub mod mss;
pub mod pb3;
pub mod ring;
pub mod sponge;
pub mod trits;
#[cfg(feature = "words")]
pub mod words;

pub fn all() -> Vec<Property> {
    let mut v = Vec::new();
    v.extend(trits::props());
    v.extend(sponge::props());
    v.extend(mss::props());
    v.extend(ring::props());
    v.extend(pb3::props());
    v.extend(app::props());
    v.extend(channel::props());
    #[cfg(feature = "words")]
    v.extend(words::props());
    v.extend(ident::props());
    v
}
