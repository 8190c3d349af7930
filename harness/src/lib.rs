//! Shared parts of the conformance harness: projection of the real objects to the
//! specification's vocabulary, a JSON writer, a seeded generator and the input corpora.
#![allow(unexpected_cfgs)]
#![allow(clippy::all)]
#![cfg_attr(all(procmacro2_semver_exempt, feature = "mac"), feature(proc_macro_def_site))]

pub mod alloc;
pub mod cli;
#[cfg(procmacro2_verif)]
pub mod back;
pub mod build;
pub mod corpus;
pub mod debug;
#[cfg(feature = "mac")]
pub mod hygiene;
#[cfg(feature = "mac")]
pub mod pm;
pub mod print;
pub mod ctor;
pub mod ident;
pub mod json;
pub mod lit;
pub mod project;
pub mod rng;
pub mod span;
pub mod store;
pub mod map;
pub mod total;
