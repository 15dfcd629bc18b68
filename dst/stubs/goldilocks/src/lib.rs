pub use model::arith::{Goldilocks, Goldilocksx8};
