//! Stand-in for serde_yaml: reads and writes JSON (which is YAML).
pub use serde_json::{Error, Result, Value, from_reader, from_slice, from_str, from_value, to_value};

pub fn to_string<T: ?Sized + serde::Serialize>(value: &T) -> Result<String> {
    serde_json::to_string_pretty(value)
}

pub fn to_writer<W: std::io::Write, T: ?Sized + serde::Serialize>(writer: W, value: &T) -> Result<()> {
    serde_json::to_writer_pretty(writer, value)
}
