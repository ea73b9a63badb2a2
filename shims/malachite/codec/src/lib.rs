pub use mbft::codec::*;
