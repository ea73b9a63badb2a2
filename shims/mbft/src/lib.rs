//! Stand-in for the parts of the malachite BFT engine that snapchain's sources
//! name.  The engine itself is a path dependency on a checkout that does not
//! exist in this sandbox; what is here are the data types, the traits snapchain
//! implements, and the actor message protocols, so that snapchain's own code
//! compiles and runs unmodified with a test driver in the engine's place.
pub mod codec;
pub mod config;
pub mod core_consensus;
pub mod core_types;
pub mod engine;
pub mod metrics;
pub mod network;
pub mod sync;
