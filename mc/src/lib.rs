//! Machinery shared by the model-checking binaries. Nothing in this library
//! depends on the code under test: it holds the reference models (tokenizer,
//! grammar, types), the exhaustive enumerators and the reporting.
pub mod engine;
pub mod grammar;
pub mod reflex;
pub mod scilla;
pub mod terms;
