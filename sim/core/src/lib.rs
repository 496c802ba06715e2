//! The uninstrumented side of the simulator: reference semantics, generators, oracles, driver.
pub mod plain;
pub mod ast;
pub mod driver;
pub mod gen;
pub mod hist;
pub mod lin;
pub mod model;
pub mod oracle;
pub mod spec;
