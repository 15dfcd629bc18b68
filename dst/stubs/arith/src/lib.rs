pub use model::arith::*;
