pub use model::pcs::*;
