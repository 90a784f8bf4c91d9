#![allow(clippy::missing_safety_doc)]
pub mod oracle;
pub mod oracle_emit;
pub mod safer;
pub mod script;
pub mod sym;
pub mod h_diff;
pub mod h_doc;
pub mod h_emit;
pub mod h_error;
pub mod h_iface;
pub mod h_more;
pub mod h_read;
pub mod h_ref;
pub mod h_stream;
pub mod h_tool;

macro_rules! table {
    ($($m:ident :: $f:ident),* $(,)?) => {
        pub const HARNESSES: &[(&str, fn())] = &[$((stringify!($f), $m::$f as fn())),*];
        #[cfg(not(feature = "native"))]
        mod ex { $( #[no_mangle] pub extern "C" fn $f() { super::$m::$f() } )* }
    };
}
table! {
    h_diff::h_events, h_diff::h_marks, h_diff::h_errors, h_diff::h_tokens, h_diff::h_token_marks,
    h_doc::h_load, h_doc::h_dump, h_doc::h_dump_raw, h_doc::h_redump, h_doc::h_build, h_doc::h_build_many, h_doc::h_dump_many,
    h_iface::h_iface, h_iface::h_reemit, h_iface::h_out, h_iface::h_open,
    h_error::h_error_place, h_error::h_error_load, h_error::h_error_emit, h_error::h_error_io,
    h_more::h_writer, h_more::h_reset, h_more::h_reset_emit, h_more::h_quoted, h_more::h_key,
    h_emit::h_emit, h_emit::h_emit_any, h_emit::h_roundtrip, h_emit::h_roundtrip_raw, h_emit::h_settings,
    h_read::h_any, h_read::h_progress, h_read::h_encodings, h_read::h_encodings_cut, h_read::h_decode, h_read::h_chunk,
    h_ref::h_load_ref, h_ref::h_dump_ref,
    h_stream::h_stream, h_stream::h_ends, h_stream::h_elinear,
    h_tool::h_tool_parse, h_tool::h_tool_emit,
    h_read::h_ioerr, h_read::h_grammar, h_read::h_linear,
}
