pub mod engine;
pub mod src_;
pub mod schema;
pub use engine::{fail, Fail, Prop, St, R};
pub use src_::Src;
pub mod wire;
pub mod glue;
pub mod suite;
