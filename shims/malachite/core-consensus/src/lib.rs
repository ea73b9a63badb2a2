pub use mbft::core_consensus::*;
