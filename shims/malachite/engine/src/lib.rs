pub use mbft::engine::*;
