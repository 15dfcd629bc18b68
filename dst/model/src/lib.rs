//! Executable reference model of the Expander crates, MPI, shared memory and HTTP that
//! ExpanderCompilerCollection links against. Field arithmetic is exact; the GKR prover and
//! the polynomial commitments are transparent (they carry the values they vouch for), so
//! the verifier decides exactly whether the statement holds.
#![allow(clippy::all)]

pub mod arith;
pub mod circuit;
pub mod crosslayer;
pub mod engine;
pub mod executor;
pub mod gkr;
pub mod mpi;
pub mod net;
pub mod pcs;
pub mod poly;
pub mod serdes;
pub mod shmem;
pub mod watch;
