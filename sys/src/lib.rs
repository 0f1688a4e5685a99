#![allow(invalid_runtime_symbol_definitions)]
pub mod sched;
pub mod pool;
