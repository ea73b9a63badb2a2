pub use mbft::sync::*;
pub use mbft::process;
