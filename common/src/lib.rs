//! Shared machinery: reference MQTT codec, generators, and the property runner.
pub mod gen;
pub mod hostile;
pub mod mqtt;
pub mod runner;
