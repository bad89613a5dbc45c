//! Deterministic simulation of the MQTT broker: see /verif/DESIGN.md.
pub mod alloc;
pub mod client;
pub mod gen;
pub mod hist;
pub mod mqtt;
pub mod net;
pub mod oracle;
pub mod orch;
pub mod props;
pub mod rng;
pub mod run;
pub mod sched;
pub mod shrink;
pub mod spec;
pub mod sys;
