#![allow(warnings)]
include!(concat!(env!("PLANUS_GEN_DIR"), "/g4.rs"));
