use crate::infra::Prop;
mod c03_ascii;
mod c04_headers;
mod c05_body;
mod c06_bodymeta;
pub mod c09_dates;
pub mod c10_mime;
mod c12_negotiate;
mod c15_ext;
mod c16_hyperium;
pub mod c17_codecs;
mod c18_host;
mod c20_errors;
mod c21_messages;
mod c22_safety;
mod c23_security;
mod c25_trace;
mod c28_values;
pub mod c29_memory;
pub mod c30_pure;
pub mod c13_channels;
pub mod typed;
pub mod typed_props;
pub fn all() -> Vec<Prop> {
    vec![
        typed_props::c01(), typed_props::c02(), c03_ascii::prop(),
        c04_headers::prop(), c05_body::prop(), c06_bodymeta::c06(), c06_bodymeta::c07(), c06_bodymeta::c08(),
        c09_dates::prop(), c10_mime::c10(), c10_mime::c11(), c12_negotiate::prop(), c13_channels::c13(), c13_channels::c14(), typed_props::c19(), typed_props::c26(), c15_ext::prop(), c16_hyperium::prop(), c17_codecs::prop(), c18_host::c18(), c18_host::c24(), c20_errors::prop(), c21_messages::c21(), c21_messages::c27(), c22_safety::prop(), c23_security::prop(), c25_trace::prop(), c28_values::prop(), c29_memory::prop(), c30_pure::prop(),
    ]
}
