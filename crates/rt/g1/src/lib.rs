#![allow(warnings)]
include!(concat!(env!("PLANUS_GEN_DIR"), "/g1.rs"));
