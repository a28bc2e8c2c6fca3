//! Symbolic harnesses over the public API of trading-engine.
#![allow(clippy::all)]
pub mod ob;
pub mod num;
pub mod krx;
pub mod misc;
