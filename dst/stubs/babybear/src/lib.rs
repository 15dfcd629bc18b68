pub use model::arith::{BabyBear, BabyBearx16};
