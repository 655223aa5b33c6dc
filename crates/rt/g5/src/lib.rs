#![allow(warnings)]
include!(concat!(env!("PLANUS_GEN_DIR"), "/g5.rs"));
