#![feature(alloc_error_hook)]
#![allow(invalid_runtime_symbol_definitions)]
#![allow(static_mut_refs)]
pub mod prng;
pub mod json;
pub mod val;
pub mod gen;
pub mod hooks;
pub mod sched;
pub mod child;
pub mod session;
pub mod damage;
pub mod plan;
pub mod engine;
pub mod oracle;
pub mod props;
pub mod cli;
