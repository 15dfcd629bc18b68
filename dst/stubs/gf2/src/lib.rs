pub use model::arith::{GF2, GF2x8};
