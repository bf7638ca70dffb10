#![allow(warnings)]
include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../../gen_out/t0.rs"));
