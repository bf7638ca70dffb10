#![allow(warnings)]
include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../../gen_out/t1.rs"));
