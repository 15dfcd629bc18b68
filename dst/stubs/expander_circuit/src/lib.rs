pub use model::circuit::*;
