//! Drop-in replacement for tokio under the model checker. See Cargo.toml.
pub use tokio_real::*;

pub mod fs;
/// The real adapters and traits, with the stand-in's readiness types.
pub mod io {
    pub use crate::net::{Interest, Ready};
    pub use tokio_real::io::*;
}
pub mod mc;
pub mod net;
pub mod runtime;
pub mod signal;
pub mod task;
pub mod time;

pub use task::spawn;
