//! The repository's programs, one module each (generated by build.rs).
include!(concat!(env!("OUT_DIR"), "/bins.rs"));
