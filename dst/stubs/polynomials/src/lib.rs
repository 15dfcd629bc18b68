pub use model::poly::*;
