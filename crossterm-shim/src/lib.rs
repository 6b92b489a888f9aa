//! crossterm 0.28.1 (https://github.com/crossterm-rs/crossterm, MIT) with the terminal device replaced by
//! a driver object, see `driver`.
#![allow(dead_code, unused_imports)]
pub use crate::command::{Command, ExecutableCommand, QueueableCommand, SynchronizedUpdate};

/// A module to work with the terminal cursor
pub mod cursor;
/// A module to read events.
#[cfg(feature = "events")]
pub mod event;
/// A module to apply attributes and colors on your text.
pub mod style;
/// A module to work with the terminal.
pub mod terminal;

/// A module to query if the current instance is a tty.
pub mod tty;

/// The replacement for the terminal device.
pub mod driver;

mod command;
pub(crate) mod macros;

