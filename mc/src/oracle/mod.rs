//! Reference models, written from the properties.
pub mod editor;
pub mod expr;
pub mod fmt;
pub mod session;
pub mod inter;
pub mod store;
