pub use mbft::network::*;
