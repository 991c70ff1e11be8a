//! Stand-in for `akasamq/mqtt-proto` 0.4.
//!
//! The workspace of akasa patches `mqtt-proto` to a git repository which is not
//! available offline.  This crate offers the same public surface (as far as
//! akasa uses it, and a bit beyond) and implements the MQTT wire format from the
//! OASIS specifications, so the *real* akasa-core sources can be compiled and run.
#![allow(clippy::all)]

mod common;
mod poll;
pub mod v3;
pub mod v5;

pub use common::*;
pub use poll::*;
pub use tokio::io::{AsyncRead, AsyncWrite};
