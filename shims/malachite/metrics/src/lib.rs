pub use mbft::metrics::*;
