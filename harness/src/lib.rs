//! Explicit-state model checking harness for oraiswap-v3.
//! `chain`  - the real contract entry points under a closed, deterministic chain environment
//! `model`  - the naive reference model (list of positions, big integers)
//! `ops`    - the operation alphabet, executed on both sides in lockstep
//! `engine` - breadth-first exploration with state deduplication
pub mod alpha;
pub mod chain;
pub mod engine;
pub mod model;
pub mod num;
pub mod observe;
pub mod ops;
pub mod par;
pub mod report;
