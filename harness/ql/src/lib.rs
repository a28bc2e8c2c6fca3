#![allow(dead_code, unused_imports)]
pub use symrt as s;
pub mod daycount;
pub mod holidays;
pub mod cashflow;
pub mod codes;
pub mod curves;
pub mod dividend;
mod lunar;
pub mod settings;
pub mod portfolio;
pub mod schedule;
pub mod tenor;
