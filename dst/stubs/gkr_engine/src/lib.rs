pub use model::engine::*;
