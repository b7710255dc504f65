//! Makes the compiled code of the library and of the contract models visible to the verifier.
pub use dv_models;
pub use funcmap;
