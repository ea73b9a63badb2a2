pub use mbft::core_types::*;
