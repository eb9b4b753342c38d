//! Symbolic harnesses over the real crates. Every `h_*` function is an entry point of xsym.
#![allow(unexpected_cfgs)]
pub mod sym;
#[cfg(feature = "hooks")]
mod tri;
#[cfg(feature = "hooks")]
mod recon;
#[cfg(feature = "hooks")]
mod star;
mod search;
mod hull;
#[cfg(feature = "hooks")]
mod planes;
#[cfg(feature = "cli")]
mod cli;
#[cfg(feature = "capi")]
mod capi;
mod alloc;
#[cfg(feature = "hooks")]
mod raw22;
mod life;
#[cfg(feature = "hooks")]
mod flat;
#[cfg(feature = "hooks")]
mod e2e;
#[cfg(feature = "hooks")]
mod pal;
