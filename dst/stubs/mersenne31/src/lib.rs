pub use model::arith::{M31, M31x16};
