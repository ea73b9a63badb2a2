pub use mbft::config::*;
