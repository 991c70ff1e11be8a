//! Properties of the whole broker, driven through in-memory connections.
pub mod alive;
pub mod client;
pub mod doors;
pub mod expiry;
pub mod flow;
pub mod gate;
pub mod r#gen;
pub mod accounts;
pub mod hooks;
pub mod hostile;
pub mod limits;
pub mod leak;
mod listen;
pub mod pipe;
mod pressure;
pub mod props;
pub mod queue;
pub mod refused;
pub mod transport;
pub mod world;

pub use props::properties;
