//! Harnesses: each `h_*` entry point states a property of hnsw_rs as
//! assertions over symbolic inputs.
#![allow(static_mut_refs, clippy::all)]
pub mod big;
pub mod capi;
pub mod common;
pub mod conc;
pub mod graph;
pub mod io;
pub mod misc;
pub mod search;
pub mod sx;
