//! Reference semantics of carmen-core, written from its documentation and public behaviour.
//! Never executed: the analyser reads both this crate and the real one, reduces both to canonical
//! value-flow terms and compares them.
#![allow(dead_code, unused_variables, unused_mut, unused_imports)]
pub mod format;
pub mod common;
pub mod spatial;
pub mod builder;
pub mod store;
pub mod stack;
pub mod coalesce;
