pub use planus;
pub use serde;
