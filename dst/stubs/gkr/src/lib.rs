pub use model::gkr::*;
